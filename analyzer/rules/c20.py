"""C20: gate diagrams: which nodes makeGateDD, makeTwoQubitGateDD and makeIdent build."""
from common import *
from structure import *
import denote


class GateClient(BuildClient):
    """matrix entries written to the array of edges: an entry that is known to be zero is the entry's number all the same"""
    mat = mk('arg', 2)

    def header(self, eng, st, h, back, k):
        super().header(eng, st, h, back, k)
        if k < 0:
            return
        zs = {}
        for f, v in list(st.facts.items()):
            if f[0] != 'fc':
                continue
            for x in f[2:]:
                if isinstance(x, T) and x.k == 'load' and pbase(x.a[0]) is self.mat:
                    o = poff(x.a[0])
                    if eng.decide(st, mk('fcmp', 'oeq', mk('load', ptr(self.mat, o), None), cf(0.0))) is True:
                        zs.setdefault(o // 16, set()).add(o % 16)
        full = [k for k, s in zs.items() if s == {0, 8}]
        if len(full) == 1:
            z = self.lib.zero
            o = full[0] * 16
            nums = [mk('tn', mk('load', ptr(self.mat, o + d), None)) for d in (0, 8)]
            for b in {x for x in set(st.rng) | {q[0] for q in st.mem} if isinstance(x, T) and x.k == 'alloca'}:
                for off in range(0, 24 * 16, 24):
                    if (b, off + 8) not in st.mem and not any(l <= off and off + 24 <= l + n for l, n, *_ in st.rng.get(b, ())):
                        continue
                    e = self.edge(eng, st.copy(), ptr(b, off))
                    if e[1] is z and e[2] is z and e[0].k == 'glob':
                        key = (b, off)
                        if key not in self.initial_zero(st):
                            self.put_edge(eng, st, ptr(b, off), (e[0], nums[0], nums[1]))
        for f in [f for f in st.facts if f[0] == 'fc' and any(isinstance(x, T) and x.k == 'load' and pbase(x.a[0]) is self.mat for x in f[2:])]:
            del st.facts[f]
        self.tidy(st)

    def initial_zero(self, st):
        return ()


class Cursor:
    """the controls in order of their qubits, visited with an iterator: which control it stands at"""

    def __init__(self, S, ctl, start, target, lay):
        self.S, self.ctl, self.start, self.target = S, ctl, start, target
        self.oq, self.ot = 32 + lay['qubit'], 32 + lay['type']
        self.end = ptr(ctl, 8)
        self.begin = mk('load', ptr(ctl, 24), None)
        self.bases = {}
        self.todo = []

    def conn(self, st, x, lv):
        """True/False/None: the control at x is on level lv"""
        eng = self.S.eng
        e = eng.decide(st, mk('pcmp', 'eq', aspval(self.end), x))
        if e is True:
            return False
        for f, v in st.facts.items():
            if f[0] != 'r':
                continue
            d = self.S.lin(st, f[1])
            q = [(a, n) for a, n in d.p if a.k == 'load' and as_ptr(a.a[0]) is ptr(x, self.oq)]
            if len(q) != 1 or abs(q[0][1]) != 1:
                continue
            # d = n*q + rest ; q == lv  <=>  d == n*lv + rest
            n = q[0][1]
            at = (d - L({q[0][0]: n}, 0) + lv.scale(n)).const()
            if at is None:
                continue
            if v[0] == v[1] == at:
                return True if e is False else None
            if at in v[4] or at < v[0] or at > v[1]:
                return False
        return None

    def sign(self, st, x):
        for f, v in st.facts.items():
            if f[0] == 'b' and any(a.k == 'load' and as_ptr(a.a[0]) is ptr(x, self.ot) for a in leaves(f[1])):
                t = f[1]
                if t.k in ('trunc', 'trunc1', 'load'):
                    return 'pos' if v else 'neg'
            if f[0] == 'r' and f[1].k == 'load' and as_ptr(f[1].a[0]) is ptr(x, self.ot):
                if v[0] == v[1]:
                    return 'pos' if v[0] & 1 else 'neg'
                if 0 in v[4]:
                    return 'pos'
        return None

    def is_cur(self, st, x, lv, depth=0):
        """x is the first control at or above lv"""
        if depth > 6:
            return False
        if x is self.begin or x is aspval(ptr(self.begin)):
            if lv == self.start:
                return True
        if x.k == 'incr':
            return self.is_cur(st, x.a[0], lv - 1, depth + 1) and self.conn(st, x.a[0], lv - 1) is True
        if x.k == 'phi':
            b = self.base(x)
            if b is not None:
                h = x.a[0]
                c = self.S.counter(h)
                if dict(st.it).get(h, 0) >= 0:
                    b = b.subst(c[0], self.S.solved(st, h))
                if b == lv:
                    return True
        if lv == self.target + 1 and self.is_cur(st, x, self.target, depth + 1):
            return True
        if depth == 0 and self.is_cur(st, x, lv - 1, 1) and self.conn(st, x, lv - 1) is False:
            return True
        return False

    def base(self, x):
        """level up to which the iterator phi has been advanced at its loop's header"""
        if x in self.bases:
            return self.bases[x]
        self.bases[x] = None
        h, p = x.a
        c = self.S.counter(h)
        if c is None:
            return None
        out = set()
        for e in self.S.cl.entries[h]:
            out.add(self.value_level(e, e.env[p]))
        if len(out) == 1:
            v = out.pop()
            if v is not None:
                # after the target's level the next one is looked at
                if v == self.target:
                    v = v + 1
                self.bases[x] = v + L({c[0]: 1}, 0) - c[1][c[0]]
                self.todo.append(x)
        return self.bases[x]

    def value_level(self, st, x):
        if x is self.begin:
            return self.start
        if x.k == 'phi':
            b = self.base(x)
            if b is None:
                return None
            h = x.a[0]
            if dict(st.it).get(h, 0) >= 0:
                b = b.subst(self.S.counter(h)[0], self.S.solved(st, h))
            return b
        if x.k == 'incr':
            v = self.value_level(st, x.a[0])
            return v + 1 if v is not None and self.conn(st, x.a[0], v) is True else None
        return None

    def verify(self, report):
        while self.todo:
            x = self.todo.pop()
            h, p = x.a
            want = self.bases[x].subst(self.S.counter(h)[0], L({self.S.counter(h)[0]: 1}, 1))
            for s in self.S.cl.iter_states.get(h, ()):
                try:
                    ok = self.is_cur(s, s.env[p], want)
                except Bad:
                    ok = False
                report(h, s, ok, 'the iterator over the controls is at %s where the next level is %r' % (show(s.env[p])[:100], want))

    def at(self, st, lv):
        """'pos'/'neg'/False/None: control on level lv"""
        xs = []
        for f, v in st.facts.items():
            if f[0] == 'peq':
                for a, b in ((f[1], f[2]), (f[2], f[1])):
                    if as_ptr(a) is self.end:
                        xs.append(b)
        for x in xs:
            if not self.is_cur(st, x, lv):
                continue
            c = self.conn(st, x, lv)
            if c is True:
                return self.sign(st, x)
            if c is False:
                return False
        return None


def gate_rule(ctl, start, target):
    def node(S, st, lv, kids, t):
        def isI(k, lo=None):
            """identity on start..lv-1"""
            if k[0] == 'I':
                return k[1] == start and k[2] == lv - 1
            return k == ONE and lv == start
        ms = [k for k in kids if k[0] == 'M']
        if lv == target:
            if [k[0] for k in kids] == ['M'] * 4 and [k[1] for k in kids] == [0, 1, 2, 3] and all(k[2] == lv - 1 for k in kids):
                return ('G', lv)
            raise Bad('at the target level %r the successors are %s' % (lv, [rshow(k) for k in kids]))
        c = ctl.at(st, lv)
        where = {'pos': 'positive control', 'neg': 'negative control', False: 'no control', None: 'unknown whether there is a control'}[c]
        if ms or any(k[0] == 'G' for k in kids):
            main = ms[0] if ms else [k for k in kids if k[0] == 'G'][0]
            if main[-1] != lv - 1:
                raise Bad('node at level %r over a part that ends at level %r' % (lv, main[-1]))
            act = {'pos': (3, 0), 'neg': (0, 3)}.get(c)
            if c is False:
                if kids[0] == kids[3] == main and kids[1] == kids[2] == ZERO:
                    return rhi(main, lv)
            elif act is not None:
                diag = main[0] == 'G' or main[1] in (0, 3)
                if kids[act[0]] == main and kids[1] == kids[2] == ZERO and (isI(kids[act[1]]) if diag else kids[act[1]] == ZERO):
                    return rhi(main, lv)
        elif c is False and kids[1] == kids[2] == ZERO and kids[0] == kids[3] and (isI(kids[0])):
            return ('I', start, lv)
        raise Bad('at level %r (%s) the successors are %s' % (lv, where, [rshow(k) for k in kids]))
    return node


def gate_leaf(mat, start):
    def leaf(S, st, e):
        t, r, i = e
        if t.k == 'glob' and 'terminal' in t.a[0]:
            ks = []
            for x, d in ((r, 0), (i, 8)):
                if x.k == 'tn' and x.a[0].k == 'load' and pbase(x.a[0].a[0]) is mat and poff(x.a[0].a[0]) % 16 == d:
                    ks.append(poff(x.a[0].a[0]) // 16)
            if len(ks) == 2 and ks[0] == ks[1]:
                return ('M', ks[0], start - 1)
        return None
    return leaf


def reporter(ctx, eng, name, what):
    def rep(h, key, s, ok, msg):
        ctx.ob('%s: %s' % (name, what), ok, msg, eng.fn.where(eng.fn.blocks[h].insts[-1]), eng.trace(s))
    return rep


def finals(ctx, eng, cl, S, name, want, expect):
    n = 0
    for st, val in cl.finals:
        n += 1
        try:
            e = cl.edge(eng, st.copy(), mk('arg', 0))
            got = S.role(st, e)
            ok = want(st, got)
            msg = 'the diagram returned is %s, not %s' % (rshow(got), expect)
        except Bad as b:
            ok, msg = False, str(b)
        ctx.ob('%s: the diagram returned' % name, ok, msg, name, eng.trace(st))
    ctx.require('results of ' + name, n, 1)


def analyse(ctx, m, lib, name, client, order=None):
    cl = client(lib)
    cl.max_states = 40000
    if order is not None:
        def start(eng, st):
            lo, hi = order
            st.facts[('lt', 's', lo, hi)] = True
            st.facts[('lt', 's', hi, lo)] = False
            return st
        cl.start = start
    eng = Engine(m.fn(name), cl, m.statics)
    eng.run()
    ctx.ran(eng)
    return eng, cl


def one_target(ctx, m, lib, lay):
    name = 'e_makeGateDD'
    eng, cl = analyse(ctx, m, lib, name, GateClient)
    # arguments: result, package, matrix, n, controls, target, start
    n, ctl, tgt, start = (mk('arg', k) for k in (3, 4, 5, 6))
    S = Structure(eng, cl, None, None)
    ls, lt, ln = (L(*ilin(x)) for x in (start, tgt, n))
    C = Cursor(S, ctl, ls, lt, lay)
    S.leaf, S.node = gate_leaf(mk('arg', 2), ls), gate_rule(C, ls, lt)
    nm = 'makeGateDD'
    finals(ctx, eng, cl, S, nm, lambda st, r: r[0] == 'G' and r[-1] == ln + ls - 1, 'the gate on levels start..start+n-1')
    S.verify(reporter(ctx, eng, nm, 'every level is built from the one below'))
    C.verify(lambda h, s, ok, msg: ctx.ob(nm + ': the controls are visited in step with the levels', ok, msg, eng.fn.where(eng.fn.blocks[h].insts[-1]), eng.trace(s)))
    S.verify(reporter(ctx, eng, nm, 'every level is built from the one below'))
    ctx.extra['edges given a role in makeGateDD'] = S.nroles


def two_rule(S_eng, t0, t1, a0, a1):
    def below(st, x, y):
        """x < y, given that they differ"""
        e = S_eng
        return e.decide(st, mk('icmp', 'slt', x, y, 8)) is True or e.decide(st, mk('icmp', 'slt', y, x, 8)) is False

    def node(S, st, lv, kids, t):
        if any(k[0] not in ('M', 'S', 'G', 'zero') for k in kids) or any(k != ZERO and k[-1] != lv - 1 for k in kids):
            raise Bad('at level %r the successors are %s' % (lv, [rshow(k) for k in kids]))
        for this, other, x, y, w in ((t0, t1, a0, a1, 0), (t1, t0, a1, a0, 1)):
            if lv != this:
                continue
            if below(st, x, y) and all(k[0] == 'M' for k in kids):
                # the bits of row and column that belong to this target follow the position, those of the other one stay
                rb = [(k[1] >> 2, k[1] & 3) for k in kids]
                sh, osh = (1, 0) if w == 0 else (0, 1)
                mine = [((r >> sh & 1), (c >> sh & 1)) for r, c in rb]
                rest = {((r >> osh & 1), (c >> osh & 1)) for r, c in rb}
                if mine == [(0, 0), (0, 1), (1, 0), (1, 1)] and len(rest) == 1:
                    return ('S', 1 - w, rest.pop(), lv)
            if below(st, y, x) and all(k[0] == 'S' and k[1] == w for k in kids) and [k[2] for k in kids] == [(0, 0), (0, 1), (1, 0), (1, 1)]:
                return ('G', lv)
            raise Bad('at the level %r of target %d the successors are %s' % (lv, w, [rshow(k) for k in kids]))
        if kids[0] == kids[3] != ZERO and kids[1] == kids[2] == ZERO:
            return rhi(kids[0], lv)
        raise Bad('at level %r the successors are %s' % (lv, [rshow(k) for k in kids]))
    return node


def two_target(ctx, m, lib):
    name = 'e_makeTwoQubitGateDD'
    n, a0, a1, start = (mk('arg', k) for k in (3, 4, 5, 6))
    ls, l0, l1, ln = (L(*ilin(x)) for x in (start, a0, a1, n))
    for order, nm in (((a0, a1), 'makeTwoQubitGateDD, first target below'), ((a1, a0), 'makeTwoQubitGateDD, first target above')):
        eng, cl = analyse(ctx, m, lib, name, GateClient, order)
        S = Structure(eng, cl, gate_leaf(mk('arg', 2), ls), two_rule(eng, l0, l1, a0, a1))
        finals(ctx, eng, cl, S, nm, lambda st, r: r[0] == 'G' and r[-1] == ln + ls - 1, 'the gate on levels start..start+n-1')
        S.verify(reporter(ctx, eng, nm, 'every level is built from the one below'))
        ctx.extra['edges given a role in ' + nm] = S.nroles


def ident(ctx, m, lib, off):
    """the identity on the requested levels; the table holds only identities from level 0"""
    Z = L({}, 0)

    def entry(S, b):
        """index of the table entry at address base b"""
        if b.k == 'idx' and b.a[1] == 24 and pbase(b.a[0]).k == 'load' and as_ptr(pbase(b.a[0]).a[0]) is ptr(mk('arg', 1), off):
            return b.a[2]
        return None

    def leaf(S, st, e):
        if all(x.k == 'load' for x in e):
            ads = [as_ptr(x.a[0]).a for x in e]
            if len({a[0] for a in ads}) == 1 and [a[1] for a in ads] == [0, 8, 16]:
                k = entry(S, ads[0][0])
                if k is not None and S.eng.decide(st, mk('pcmp', 'eq', e[0], NULL)) is False:
                    return ('I', Z, S.lin(st, k))
        return None

    def node(S, st, lv, kids, t):
        x = kids[0]
        if kids[3] == x and kids[1] == kids[2] == ZERO:
            if x == ONE:
                return ('I', lv, lv)
            if x[0] == 'I' and x[2] == lv - 1:
                return ('I', x[1], lv)
        raise Bad('at level %r the successors are %s' % (lv, [rshow(k) for k in kids]))

    for name in ('e_makeIdent', 'e_makeIdent1'):
        eng, cl = analyse(ctx, m, lib, name, BuildClient)
        two = name == 'e_makeIdent'
        nm = 'makeIdent(%s)' % ('lowest, highest level' if two else 'number of qubits')
        S = Structure(eng, cl, leaf, node)

        def bounds(st):
            a = mk('arg', 2)
            return (S.lin(st, a), S.lin(st, mk('arg', 3))) if two else (Z, S.lin(st, a) - 1)

        def start_role(h, key, r):
            c = S.counter(h)
            return ('I', c[1][c[0]], c[1][c[0]] - 1) if c is not None else r
        S.start_role = start_role

        def empty(st):
            lo, hi = (mk('arg', 2), mk('arg', 3)) if two else (ci(8, 0), t_add(8, mk('arg', 2), ci(8, -1)))
            return eng.decide(st, mk('icmp', 'slt', hi, lo, 8)) is True

        def want(st, r):
            lo, hi = bounds(st)
            return empty(st) if r == ONE else S.norm(st, r) == S.norm(st, ('I', lo, hi))
        finals(ctx, eng, cl, S, nm, want, 'the identity on the requested levels')
        S.verify(reporter(ctx, eng, nm, 'every level is built from the one below'))
        for st, val in cl.finals:
            for b in {k[0] for k in st.mem} | set(st.rng):
                if b.k in ('alloca', 'arg'):
                    continue
                k = entry(S, b)
                ok, msg = False, 'writes to %s' % show(b)
                if k is not None:
                    try:
                        r = S.role(st, cl.edge(eng, st.copy(), ptr(b)))
                        ok = S.norm(st, r) == S.norm(st, ('I', Z, S.lin(st, k)))
                        msg = 'entry %r of the identity table is set to %s' % (S.lin(st, k), rshow(r))
                    except Bad as x:
                        msg = str(x)
                ctx.ob('%s: what is put into the identity table' % nm, ok, msg, nm, eng.trace(st))
        S.verify(reporter(ctx, eng, nm, 'every level is built from the one below'))


def shorthands(ctx, lay):
    """makeGateDD without controls and with a single one are makeGateDD with a set of none and of that one"""
    from rules.c19 import CompClient, no_controls, is_set
    names = ['e_makeGateDD_nc', 'e_makeGateDD_1c']
    m = ctx.module(names, no_controls, opaque=is_set)
    lib = denote.Lib(ctx, m)
    for name in names:
        one = name.endswith('_1c')
        cl = CompClient(lib, lay)
        eng = Engine(m.fn(name), cl, m.statics).run()
        ctx.ran(eng)
        ctx.require('results of ' + name, len(cl.finals), 1)
        k = 5 if one else 4
        for st, _ in cl.finals:
            e = cl.edge(eng, st.copy(), mk('arg', 0))
            cs = cl.make_set(NULL, [cl.control(eng, st, mk('arg', 4))] if one else [])
            want = mk('gate', mk('arg', 3), cs, mk('arg', k), mk('arg', k + 1), *cl.matrix(eng, st, mk('arg', 2), 8))
            ctx.ob('makeGateDD with %s control: same as with a set of controls' % ('one' if one else 'no'), e == cl.made(want),
                   'the diagram returned is %s' % show(e[0])[:160], 'Package.hpp: makeGateDD', eng.trace(st))


def check(ctx):
    ctx.rule('Every edge of the construction is given a role (entry k of the matrix lifted to a level; gate up to a level; identity on start..level; zero), '
             'by induction over the loops: each node made must combine the roles of the level below as the gate demands at its level '
             '(target, positive/negative/no control), each loop must carry its role on, and the edge returned must be the gate up to the level start+n-1. '
             'makeIdent must return the identity on the levels asked for and only put identities from level 0 into its table.')
    ctx.assume.append('Levels and numbers of qubits fit their types; controls are those of levels start..start+n-1 and not the targets; the set of controls is ordered by qubit (C26); '
                      'nodes are made as C30 says.')
    di = ctx.di()
    lay = di.layout('Control')
    m = ctx.module(['e_makeGateDD'], cut('makeGateDD'))
    lib = denote.Lib(ctx, m)
    one_target(ctx, m, lib, lay)
    m = ctx.module(['e_makeTwoQubitGateDD'], cut('makeTwoQubitGateDD'))
    two_target(ctx, m, denote.Lib(ctx, m))
    m = ctx.module(['e_makeIdent', 'e_makeIdent1'], cut('makeIdent'))
    pkg = [k for k in di.byname if k.startswith('Package<')]
    ident(ctx, m, denote.Lib(ctx, m), di.layout(pkg[0])['idTable'])
    shorthands(ctx, lay)
