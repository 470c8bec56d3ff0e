"""Shared by C23/C24: storage pools (free list + chunks) of the unique tables, the number table and the number cache."""
from common import *
from absint import *
from loops import *
from roles import *
from rules.c06 import subst


def noep(t):
    """the value without the memory epochs of its loads"""
    def f(x):
        if x.k == 'load':
            return mk('load', noep_ptr(x.a[0]), None)
        return None
    return subst(t, f)


def noep_ptr(p):
    p = as_ptr(p)
    return ptr(noep(p.a[0]), p.a[1])


GROW = ('emplace_back', 'push_back')
SHRINK = ('pop_back', 'erase', 'resize', 'clear', 'shrink_to_fit')


def vec_op(short, full):
    if short.startswith('std::vector::') and 'std::vector<std::vector<' in full.split('(')[0]:
        return short.split('::')[-1]
    return None


class PoolClient(LogClient):
    """operations on the list of chunks are opaque events"""

    def __init__(self):
        super().__init__()
        self.finals = []

    def readonly(self, eng, short):
        return short.split('::')[-1] in SHRINK + GROW and short.startswith('std::vector::')

    def call(self, eng, st, inst, short, full, args):
        op = vec_op(short, full)
        if op in GROW:
            a = args[1] if len(args) > 1 else None
            size = None
            if a is not None and op == 'emplace_back':
                size = eng.load(st, a, 8)
            self.effect(st, ('grow', as_ptr(args[0]), size))
            for o, nm in ((0, 'cdata'), (8, 'cfin'), (16, 'ccap')):
                eng.store(st, ptr(as_ptr(args[0]).a[0], as_ptr(args[0]).a[1] + o), mk(nm, inst.id), 8)
            st.env[inst.id] = mk('newchunk')
            return True
        if op in SHRINK:
            self.effect(st, ('shrink', as_ptr(args[0]), op, tuple(args[1:])))
            st.env[inst.id] = mk('opq', inst.id)
            return True
        if short == 'std::vector::assign' and len(args) == 3:
            self.effect(st, ('assign', as_ptr(args[0]), eng.load(st, args[2], 8)))
            return True
        if short == 'dd::ComplexTable::lookup':
            self.effect(st, ('lookup', args))
            st.env[inst.id] = mk('fresh', inst.id)
            return True
        return None

    def ret(self, eng, st, inst, val):
        super().ret(eng, st, inst, val)
        self.finals.append((st.copy(), val, eng.trace(st)))


def cut(s, d):
    return vec_op(s, d) in GROW + SHRINK or s in ('dd::ComplexTable::lookup', 'std::vector::assign')


def run_pool(ctx, m, name):
    cl = PoolClient()
    eng = Engine(m.fn(name), cl, m.statics).run()
    ctx.ran(eng)
    return eng, cl


def sequence(cl, ev, eff):
    """effects of a path in order; ('loop', h) marks where a loop ran"""
    out = []
    for e in ev:
        if e[0] == 'loop':
            out += list(e[2])
            out.append(('loop', e[1]))
    return out + list(eff)


class Pool:
    """locations of the pool inside its table object"""

    def __init__(self, ctx, tag, m, take, give, size, pair, argk=0):
        """take: entry point handing out (object is argument argk), give: entry point taking back"""
        self.tag = tag
        self.size = size
        t = mk('arg', argk)
        self.t = t
        eng, cl = run_pool(ctx, m, give)
        tg = mk('arg', 0)
        self.ok = False
        xs = [mk('load', ptr(mk('arg', 1), 0), None), mk('load', ptr(mk('arg', 1), 8), None)] if pair else [mk('arg', 1)]
        self.give = (eng, cl, tg, xs)
        self.head = self.link = None
        # the free list: the field of the table that receives the element, and the field of the element that receives the old value
        for ev, eff, facts, mem, val, tr in cl.rets:
            heads = [k[1] for k, c in mem.items() if k[0] is tg and c[1] in xs]
            for h in heads:
                lk = [k[1] for k, c in mem.items() if k[0] in xs and c[1] is mk('load', ptr(tg, h), None)]
                if lk:
                    self.head, self.link = h, lk[0]
        self.eng, self.cl = run_pool(ctx, m, take)
        self.it = self.end = self.vec = None
        for (st, val, tr), r in zip(self.cl.finals, self.cl.rets):
            for e in sequence(self.cl, r[0], r[1]):
                if e[0] == 'grow' and e[1].a[0] is t:
                    self.vec = e[1].a[1]
        for (st, val, tr), r in zip(self.cl.finals, self.cl.rets):
            x = self.taken(st, val, pair)
            for key, v in st.facts.items():
                if key[0] != 'peq' or v:
                    continue
                for a, b in ((key[1], key[2]), (key[2], key[1])):
                    if a.k == 'load' and b.k == 'load' and pbase(a.a[0]) is t and pbase(b.a[0]) is t and x[0] is a:
                        self.it, self.end = poff(a.a[0]), poff(b.a[0])
        self.pair = pair
        self.ok = None not in (self.head, self.link, self.it, self.end, self.vec)

    def taken(self, st, val, pair):
        if pair:
            return [aspval(self.eng.load(st, ptr(mk('arg', 0), o), 8, 'ptr')) for o in (0, 8)]
        return [val]

    def fld(self, off):
        return mk('load', ptr(self.t, off), None)
