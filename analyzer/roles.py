"""Locations of the tables' internals, discovered from what the public accessors touch (not from field names)."""
from common import *
from absint import *
from loops import *


class _Ret(LogClient):
    pass


def run_fn(m, name, client=None, ctx=None, **kw):
    cl = client or LogClient()
    eng = Engine(m.fn(name), cl, m.statics, **kw)
    eng.run()
    if ctx is not None:
        ctx.ran(eng)
    return eng, cl


def getter_offset(m, name):
    """offset read (or address formed) by a trivial getter on arg0"""
    eng, cl = run_fn(m, name)
    vals = {r[4] for r in cl.rets}
    if len(vals) != 1:
        raise AnalysisError('getter %s has several results' % name)
    v = vals.pop()
    if v.k == 'load' and pbase(v.a[0]) is mk('arg', 0):
        return poff(v.a[0])
    if pbase(v) is mk('arg', 0):
        return poff(v)
    raise AnalysisError('getter %s does not read a field: %s' % (name, show(v)))


def pool_roles(m, name):
    """returnNode/returnEntry(table, x): -> (offset of the free list head, offset of the link)"""
    eng, cl = run_fn(m, name)
    t, x = mk('arg', 0), mk('arg', 1)
    for ev, eff, facts, mem, val, tr in cl.rets:
        head = [k[1] for k, c in mem.items() if k[0] is t and c[1] is x]
        for h in head:
            link = [k[1] for k, c in mem.items() if k[0] is x and c[1] is mk('load', ptr(t, h), None)]
            if link:
                return h, link[0]
    return None
