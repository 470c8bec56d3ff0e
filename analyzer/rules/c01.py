"""C01: garbage collection leaves no memo table with a reference to something it reclaimed, and says truthfully
whether anything was reclaimed."""
from common import *
from absint import *
from loops import *

NODES = ('v', 'm', 'd')


def stored(tname):
    """what a member of the package can hold on to: node kinds, and whether it holds table numbers"""
    import re
    kinds = {k for k in NODES if re.search(r'\bdd::%sNode\b' % k, tname)}
    numbers = re.search(r'\bdd::Edge<', tname) is not None
    return kinds, numbers


def package_members(di):
    rec = di.record('Package<')
    out = []
    for n, o, t in di.members(rec):
        out.append((n, o, di.tname(t)))
    return out


def classes(members):
    return {strip_templates(t) for n, o, t in members}


class GcClient(LogClient):
    def __init__(self, members):
        super().__init__()
        self.off = {o: (n, t) for n, o, t in members}
        self.counts = set()

    def call(self, eng, st, inst, short, full, args):
        if not short.startswith('dd::') or not args:
            return None
        a = as_ptr(args[0])
        if a.a[0] is not mk('arg', 0):
            return None
        meth = short.split('::')[-1]
        hit = self.off.get(a.a[1])
        if hit is None:
            if meth in ('possiblyNeedsCollection',):
                st.env[inst.id] = eng.fresh(st, inst)
                return True
            return None
        n, t = hit
        if meth == 'garbageCollect':
            r = eng.fresh(st, inst)
            st.env[inst.id] = r
            f = args[1]
            outs = []
            for s, v in ([(st, bool(f.a[1] & 1))] if f.k == 'i' else eng.split(st, f)):
                for s2, zero in eng.split(s, mk('icmp', 'eq', r, ci(64, 0), 64)):
                    x = ci(64, 0) if zero else r
                    s2.env[inst.id] = x
                    self.event(s2, ('gc', n, x, v))
                    if not zero:
                        self.counts.add(r)
                    outs.append(s2)
            return outs
        if meth == 'clear':
            self.event(st, ('clear', n))
            return True
        if inst.ty != 'void':
            st.env[inst.id] = eng.fresh(st, inst)
        return True

    def binop(self, eng, st, inst, op, a, b):
        # numbers of elements in memory do not wrap when added: more than nothing and more than nothing is more than nothing
        if op in ('add', 'or') and a in self.counts and b in self.counts and all(eng.decide(st, mk('icmp', 'eq', x, ci(64, 0), 64)) is False for x in (a, b)):
            return a
        return None

    def widen_heap(self, eng, st, h):
        eng.havoc_heap(st, ('loop', h))


def cleared_ranges(eng, cl, arg0=None):
    """loop headers that overwrite every element of a vector member with a null node pointer -> member offset"""
    out = {}
    for h in cl.iters:
        cov = traversal(eng, cl, h)
        if not cov or cov.stride is None:
            continue
        b, e = cov.base, cov.end
        if not (b.k == 'load' and e.k == 'load'):
            continue
        pb, pe = as_ptr(b.a[0]), as_ptr(e.a[0])
        if pb.a[0] is not pe.a[0] or pe.a[1] != pb.a[1] + 8:
            continue
        ok = True
        for new, eff, facts, mem in cl.iters[h]:
            c = mem.get((cov.elem, 0))
            if c is None or c[1] is not NULL:
                ok = False
        if ok:
            out[h] = pb
    return out


def check(ctx):
    ctx.rule('For every path of a collection and every package member M: if M can hold pointers to nodes of a kind, or to table numbers, '
             'and the path allows that kind to have been reclaimed (its collected count is not known to be 0), then M is emptied on that path; '
             'reclaimed numbers imply forced collection of all node tables; the result is true on exactly the paths where some count is not 0.')
    di = ctx.di()
    members = package_members(di)
    cls = tuple(sorted({'dd::' + c + '::' for c in classes(members) if c and not c.startswith('vector')}) + ['dd::ComplexTable::', 'dd::ComplexNumbers::', 'dd::ComplexCache::'])
    m = ctx.module(['e_pkg_garbageCollect'], lambda s, d: s.startswith(cls))
    cl = GcClient(members)
    eng = Engine(m.fn('e_pkg_garbageCollect'), cl, m.statics).run()
    ctx.ran(eng)
    ranges = cleared_ranges(eng, cl)
    where = {n: 'include/dd/Package.hpp' for n, _, _ in members}
    fn = eng.fn
    tables = {n: t for n, o, t in members if t.startswith('UniqueTable')}
    kind = {}
    for n, t in tables.items():
        k, _ = stored(t)
        kind[n] = k.pop()
    numbers = [n for n, o, t in members if t.startswith('ComplexNumbers')][0]
    caches = [(n, o, t) for n, o, t in members if stored(t)[0] and n not in tables]
    ctx.require('node tables', len(tables), 3)
    ctx.require('memo tables', len(caches), 10)
    ctx.require('paths that collect', sum(1 for r in cl.rets if any(e[0] == 'gc' for e in r[0])), 2)
    import re
    loc = loc_of(fn)
    for ev, eff, facts, mem, val, trace in cl.rets:
        st = State()
        st.facts = facts
        gcs = {e[1]: e for e in ev if e[0] == 'gc'}
        done = {e[1] for e in ev if e[0] == 'clear'}
        cleared_off = {poff(ranges[e[1]]) for e in ev if e[0] == 'loop' and e[1] in ranges and pbase(ranges[e[1]]) is mk('arg', 0)}
        may = {}
        for n, e in gcs.items():
            z = eng.decide(st, mk('icmp', 'eq', e[2], ci(64, 0), 64))
            k = kind.get(n, 'number')
            may[k] = (z is not True, z)
        for n, o, t in caches:
            ks, num = stored(t)
            why = [k + 'Node' for k in ks if may.get(k, (False,))[0]]
            # the identity table's edges always carry the static weight one, which is never reclaimed
            if num and not t.startswith('vector<') and may.get('number', (False,))[0]:
                why.append('number')
            if not gcs:
                continue
            ok = not why or n in done or o in cleared_off
            for k in sorted(ks) + (['number'] if num and not t.startswith('vector<') else []):
                if k + 'Node' in why or k in why:
                    ctx.ob('stale-memo: %s holds %s' % (n, k), ok,
                           'memo table %s can still refer to a reclaimed %s: on this path the table is not emptied although the %s collection may have reclaimed something'
                           % (n, k, k), loc, trace)
        if may.get('number', (False,))[0]:
            for n in tables:
                ctx.ob('forced: %s after numbers were reclaimed' % n, n in gcs and gcs[n][3] is True,
                       'numbers may have been reclaimed but the unreferenced nodes of %s that point at them are not collected on this path' % n, loc, trace)
        # every table takes part
        if gcs:
            for n in list(tables) + [numbers]:
                ctx.ob('collects: %s' % n, n in gcs, 'a collection does not collect %s on this path' % n, loc, trace)
            some = [z for (mb, z) in may.values()]
            truth = True if any(z is False for z in some) else (False if all(z is True for z in some) else None)
        else:
            truth = False
        outs = {}
        for s2, v in eng.split(st_full(st), val) if val.k != 'i' else [(st, bool(val.a[1] & 1))]:
            some = [eng.decide(s2, mk('icmp', 'eq', e[2], ci(64, 0), 64)) for e in gcs.values()]
            t = True if any(z is False for z in some) else (False if all(z is True for z in some) else None)
            ctx.ob('result: %s' % ('collected' if v else 'nothing collected'), t is v,
                   'the collection reports %s although %s' % (v, {True: 'something was reclaimed', False: 'nothing was reclaimed',
                                                                  None: 'that does not follow from the collected counts on this path'}[t]), loc, trace)


def st_full(st):
    s = State()
    s.env, s.mem, s.rng, s.ep, s.facts, s.c, s.it, s.path, s.tag = {}, {}, {}, {}, dict(st.facts), None, (), None, 0
    return s


def loc_of(fn):
    for b in fn.blocks:
        for i in b.insts:
            if i.op == 'call' and 'garbageCollect' in (i.callee or ''):
                return fn.where(i)
    return fn.name
