"""C31: state, density-matrix and imported diagrams hold the amplitudes asked for."""
from common import *
import llvmir
from structure import *
from poly import Z, num, P, F, S2
import denote
from rules.c20 import reporter, finals, analyse

S = F(1)
H = P({((S2, 1),): F(1)})
O, N = Z(1), Z(0)
BASIS = {'zero': (O, N), 'one': (N, O), 'plus': (Z(H), Z(H)), 'minus': (Z(H), Z(-H)), 'right': (Z(H), Z(0, H)), 'left': (Z(H), Z(0, -H))}


def amplitude(lib, r, i):
    """complex constant a pair of stored numbers stands for"""
    v = []
    for x in (r, i):
        if x is lib.zero:
            v.append(P())
        elif x is lib.one:
            v.append(num(1.0))
        elif x.k == 'tn' and x.a[0].k == 'f':
            v.append(num(x.a[0].a[0]))
        else:
            return None
    return Z(*v)


def scaled(S_, st, e):
    """an amplitude in front of the node of an accumulator (whose own weight is one: normal form of a unit vector)"""
    t, r, i = e
    a = amplitude(S_.lib, r, i)
    if a is None:
        return None
    if t.k == 'glob' and 'terminal' in t.a[0]:
        return None if a == O else ('A', a, ONE)
    own = S_.cl.made(t) if t.k == 'node' else S_.partner(t)
    if own is None:
        return None
    return ('A', a, S_.role(st, own))


def state_rule(start, kind, want):
    """want(S, st, lv): amplitudes the successors must have at level lv, or None"""
    k = 2 if kind == 'v' else 4

    def node(S, st, lv, kids, t):
        w = want(S, st, lv)
        if w is None:
            raise Bad('at level %r it is not known which state is asked for' % lv)
        got = []
        below = None
        for r in kids:
            a, b = (N, None) if r == ZERO else (O, r) if r[0] != 'A' else (r[1], r[2])
            got.append(a)
            if b is not None:
                ok = b == ONE and lv == start or b[0] == 'B' and b[1] == lv - 1
                if not ok or below not in (None, b):
                    raise Bad('at level %r the successor is %s' % (lv, rshow(b)))
                below = b
        if list(w) != got:
            raise Bad('at level %r the successors have the amplitudes %s, not %s' % (lv, got, list(w)))
        return ('B', lv)
    return node


def leaf(S, st, e):
    return scaled(S, st, e)


def states(ctx, m, lib, enum):
    zero = L({}, 0)
    for name, nm, kind in (('e_makeZeroState', 'makeZeroState', 'v'), ('e_makeZeroDensityOperator', 'makeZeroDensityOperator', 'd'),
                           ('e_makeBasisState_bool', 'makeBasisState (bits)', 'v'), ('e_makeBasisState_bs', 'makeBasisState (kinds)', 'v')):
        n = L(*ilin(mk('arg', 2)))
        sa = {'e_makeZeroState': mk('arg', 3), 'e_makeZeroDensityOperator': None}.get(name, mk('arg', 4))
        start = zero if sa is None else L(*ilin(sa))
        if name == 'e_makeBasisState_bool':
            want = bit_at
        elif name == 'e_makeBasisState_bs':
            want = kind_at(enum)
        elif kind == 'd':
            want = lambda S, st, lv: (O, N, N, N)
        else:
            want = lambda S, st, lv: (O, N)
        eng, cl = analyse(ctx, m, lib, name, BuildClient)
        if name == 'e_makeBasisState_bs':
            for h in cl.iter_states:
                cl.iter_states[h] = [s for s in cl.iter_states[h] if not no_kind(s, set(enum.values()))]
        S_ = Structure(eng, cl, leaf, state_rule(start, kind, want))

        def start_role(h, key, r, start=start):
            return ('B', start - 1)
        S_.start_role = start_role
        finals(ctx, eng, cl, S_, nm, lambda st, r: r == ('B', n + start - 1) or r == ONE and eng.decide(st, mk('icmp', 'eq', mk('arg', 2), ci(8, 0), 8)) is True,
               'the state on levels start..start+n-1')
        S_.verify(reporter(ctx, eng, nm, 'every level is built from the one below'))


def vec_index(S, st, a, elem):
    """index of the element of the vector argument 3 that address base a reads"""
    if a.k == 'idx' and a.a[1] == elem and pbase(a.a[0]).k == 'load' and poff(a.a[0]) == 0 and as_ptr(pbase(a.a[0]).a[0]) is ptr(mk('arg', 3), 0):
        return a.a[2]
    return None


def no_kind(st, kinds):
    """the state asked for is none of the kinds there are"""
    for f, v in st.facts.items():
        if f[0] == 'r' and f[1].k == 'load':
            a = as_ptr(f[1].a[0])
            if vec_index(None, st, a.a[0], 4) is not None and a.a[1] == 0 and all(k in v[4] or k < v[0] or k > v[1] for k in kinds):
                return True
    return False


def kind_at(enum):
    inv = {v: k for k, v in enum.items()}

    def want(S, st, lv):
        for f, v in st.facts.items():
            if f[0] == 'r' and f[1].k == 'load' and v[0] == v[1]:
                a = as_ptr(f[1].a[0])
                i = vec_index(S, st, a.a[0], 4)
                if i is not None and a.a[1] == 0 and S.lin(st, i) == lv:
                    return BASIS.get(inv.get(v[0]))
        return None
    return want


def bit_at(S, st, lv):
    for f, v in st.facts.items():
        if f[0] != 'r' or f[1].k != 'iand':
            continue
        val = False if v[0] == v[1] == 0 else True if 0 in v[4] or v[0] > 0 or v[1] < 0 else None
        if val is None:
            continue
        ops_ = [x for x in f[1].a if isinstance(x, T)]
        for mask, word in (ops_, ops_[::-1]):
            if word.k == 'load' and mask.k == 'ishl' and mask.a[1].k == 'i' and mask.a[1].a[1] == 1:
                a = as_ptr(word.a[0])
                w = vec_index(S, st, a.a[0], 8)
                if w is None or w.k != 'isdiv':
                    continue
                idx = w.a[1]
                p, c = ilin(mask.a[2])
                if len(p) == 1:
                    (x, k), = p.items()
                    if k == 1 and x.k == 'isrem' and x.a[1] is idx and x.a[2].a[1] == 64 and (a.a[1], c) in ((0, 0), (-8, 64)) and w.a[2].a[1] == 64 \
                            and S.lin(st, idx) == lv:
                        return (N, O) if val else (O, N)
    return None


class ImportClient(BuildClient):
    """recursive import of a vector or matrix: scratch numbers and the recursive call as terms"""

    def __init__(self, lib, rec):
        super().__init__(lib)
        self.rec = rec          # demangled name of the recursive function

    def prune(self, eng, st, block):
        return super().prune(eng, st, block)

    def by_value(self, full):
        return [p.replace('const', '').strip().endswith('&') is False for p in params(full)]

    def call(self, eng, st, inst, short, full, args):
        if full == self.rec:
            ps = params(full)
            xs = []
            for p, a in zip(ps, args[2:]):
                # iterators are handed over by reference, a matrix stays where it is
                xs.append(eng.load(st, a, 8, 'ptr') if p.endswith('&') and 'vector<std::vector' not in p.split('__normal_iterator')[0] else a)
            t = mk('rec', *xs)
            self.effect(st, ('rec', t))
            self.put_edge(eng, st, args[0], (t, mk('sc', t, 0), mk('sc', t, 1)))
            return True
        return super().call(eng, st, inst, short, full, args)

    def k_getCached(self, eng, st, inst, short, full, args):
        ps = params(full)
        if len(ps) == 2:
            v = [eng.load(st, a, 8, 'double') if p.endswith('&') else a for p, a in zip(ps, args[1:3])]
        elif len(ps) == 1 and ('ComplexValue' in ps[0] or 'std::complex' in ps[0]):
            v = [eng.load(st, aspval(ptr(as_ptr(args[1]), o)), 8, 'double') for o in (0, 8)]
        else:
            raise AnalysisError('no contract for ' + full[:120])
        t = mk('scr', inst.id, len([e for e in st.c[1] if e[0] == 'get']), *v)
        self.effect(st, ('get', t))
        st.env[inst.id] = mk('agg', mk('sc', t, 0), mk('sc', t, 1))
        return True

    def k_returnToCache(self, eng, st, inst, short, full, args):
        a = as_ptr(args[1])
        self.effect(st, ('put', tuple(eng.load(st, aspval(ptr(a.a[0], a.a[1] + o)), 8, 'ptr') for o in (0, 8))))
        return True

    def k_lookup(self, eng, st, inst, short, full, args):
        ps = params(full)
        if len(ps) == 1 and ps[0].replace('const', '').replace('&', '').strip() == 'dd::Complex':
            a = as_ptr(args[1])
            st.env[inst.id] = mk('agg', *[self.tn(mk('val', eng.load(st, aspval(ptr(a.a[0], a.a[1] + o)), 8, 'ptr'))) for o in (0, 8)])
            return True
        return super().k_lookup(eng, st, inst, short, full, args)


class Size:
    """linear forms over N = the number of elements (2 to the power level+1) and K = log2 N"""

    def __init__(self, known):
        self.known = known      # term -> {atom: coefficient}

    def ev(self, t):
        if t in self.known:
            return dict(self.known[t])
        k, a = t.k, t.a
        if k == 'i':
            return {1: F(a[1])} if a[1] else {}
        if k == 'f':
            return {1: F(a[0])} if a[0] else {}
        if k in ('trunc', 'sext', 'zext', 'uitofp', 'sitofp', 'fptosi', 'fptoui'):
            r = self.ev([x for x in a if isinstance(x, T)][-1])
            return r
        if k == 'lin':
            out = {1: F(wrap(a[2], a[0]))} if a[2] else {}
            for x, n in a[1]:
                r = self.ev(x)
                if r is None:
                    return None
                for y, c in r.items():
                    out[y] = out.get(y, 0) + c * wrap(n, a[0])
            return {x: c for x, c in out.items() if c}
        if k in ('isdiv', 'iudiv', 'ilshr', 'iashr'):
            r, d = self.ev(a[1]), a[2]
            if r is None or d.k != 'i':
                return None
            d = d.a[1] if k[1:] in ('sdiv', 'udiv') else 1 << d.a[1]
            # exact: what is divided is a multiple of N or of the size of an element
            return {x: c / d for x, c in r.items()}
        if k == 'ishl' and a[1].k == 'i' and a[1].a[1] == 1:
            r = self.ev(a[2])
            if r is not None and r.get('K') == 1 and set(r) <= {'K', 1} and r.get(1, 0).denominator == 1 if r and 1 in r else r == {'K': F(1)}:
                return {'N': F(2) ** int(r.get(1, 0))}
            return None
        if k == 'ishl' and a[2].k == 'i':
            r = self.ev(a[1])
            return None if r is None else {x: c * (1 << a[2].a[1]) for x, c in r.items()}
        if k in ('fadd', 'fsub'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None:
                return None
            out = dict(x)
            for z, c in y.items():
                out[z] = out.get(z, 0) + (c if k == 'fadd' else -c)
            return {x: c for x, c in out.items() if c}
        if k in ('fn_log2', 'cttz'):
            x = self.ev(a[0])
            return {'K': F(1)} if x == {'N': F(1)} else None
        return None


def address(S, t, base, elem):
    """(t - base) / elem as a linear form, or None"""
    a = as_ptr(t)
    off = F(a.a[1])
    out = {}
    b = a.a[0]
    while b is not base and b.k == 'idx':
        r = S.ev(b.a[2])
        if r is None:
            return None
        for x, c in r.items():
            out[x] = out.get(x, 0) + c * b.a[1]
        p = as_ptr(b.a[0])
        off += p.a[1]
        b = p.a[0]
    if b is not base:
        return None
    out[1] = out.get(1, 0) + off
    return {x: c / elem for x, c in out.items() if c}


def ladd_(x, y, k=1):
    out = dict(x)
    for a, c in y.items():
        out[a] = out.get(a, 0) + c * k
    return {a: c for a, c in out.items() if c}


class Import:
    def __init__(self, ctx, m, lib, root, rec):
        self.ctx, self.m, self.lib, self.root, self.rec = ctx, m, lib, root, rec
        self.full = m.dname(rec)

    def client(self):
        return ImportClient(self.lib, self.full)

    def run(self, fn):
        cl = self.client()
        eng = Engine(self.m.fn(fn), cl, self.m.statics)
        eng.run()
        self.ctx.ran(eng)
        return eng, cl

    def used(self, st, cl, e):
        """scratch numbers that end up in the edge e"""
        t, r, i = e
        if t.k == 'node':
            return [x for c in cl.children(t) for x in self.used(st, cl, c)]
        if r.k == 'sc' and i.k == 'sc' and r.a[0] is i.a[0] and (r.a[1], i.a[1]) == (0, 1):
            return [r.a[0]]
        return []

    def recursive(self):
        ctx, nm = self.ctx, self.name
        eng, cl = self.run(self.rec)
        ctx.require('results of ' + nm, len(cl.finals), 2)
        for st, _ in cl.finals:
            e = cl.edge(eng, st.copy(), mk('arg', 0))
            key = '%s: every part is built from its halves or quarters' % nm
            try:
                self.part(eng, cl, st, e, self.whole(eng, cl, st))
                ok, msg = True, ''
            except Bad as b:
                ok, msg = False, str(b)
            ctx.ob(key, ok, msg, nm, eng.trace(st))
            ts = [x[1] for x in st.c[1] if x[0] in ('get', 'rec')]
            us = self.used(st, cl, e)
            ctx.ob('%s: every scratch number taken becomes the weight of one edge' % nm,
                   sorted(x.n for x in ts) == sorted(x.n for x in us) and not [x for x in foreign(st) if x[0] in ('put', 'st')],
                   'taken: %d, used: %d, effects %s' % (len(ts), len(us), sorted({x[0] for x in st.c[1]})), nm, eng.trace(st))

    def known_level(self, eng, st):
        f = st.facts.get(('r', self.level))
        return f[0] if f is not None and f[0] == f[1] else None

    def part(self, eng, cl, st, e, region, lv=None):
        """e holds the entries of the region on the levels up to lv (a linear form over K; None: the level asked for)"""
        lv = lv if lv is not None else {'K': F(1), 1: F(-1)}
        fix = self.fix(eng, st)
        t, r, i = e
        if t.k == 'node':
            if t.a[1] is not True:
                raise Bad('a node is made with stored weights')
            got = self.fixed(fix, self.S.ev(t.a[0]))
            if got is None or got != self.fixed(fix, lv):
                raise Bad('a node is made at level %s' % show(t.a[0]))
            kids = cl.children(t)
            for j, k in enumerate(kids):
                self.part(eng, cl, st, k, self.sub(region, j), ladd_(lv, {1: F(-1)}))
            return
        if t.k == 'rec':
            self.same_call(t, region, lv, fix)
            if r is not mk('sc', t, 0) or i is not mk('sc', t, 1):
                raise Bad('the weight of a part is changed')
            return
        if t.k == 'glob' and 'terminal' in t.a[0]:
            if self.fixed(fix, lv) != {1: F(-1)}:
                raise Bad('a terminal edge stands for more than one entry')
            if r.k == 'sc' and i.k == 'sc' and r.a[0] is i.a[0] and r.a[0].k == 'scr' and (r.a[1], i.a[1]) == (0, 1):
                self.entry(eng, st, r.a[0].a[2:], region, fix)
                return
        raise Bad('an edge (%s, %s, %s) has no recognised meaning' % (show(t)[:80], show(r)[:60], show(i)[:60]))

    def fix(self, eng, st):
        v = self.known_level(eng, st)
        return None if v is None else v + 1

    def fixed(self, fix, r):
        """a linear form with the level known"""
        if r is None or fix is None:
            return r
        out = {1: r.get(1, F(0)) + r.get('K', 0) * fix + r.get('N', 0) * F(2) ** fix}
        for x, c in r.items():
            if x not in (1, 'K', 'N'):
                out[x] = c
        return {x: c for x, c in out.items() if c}

    def public(self):
        """the user's function: an empty operand gives the one terminal, a single entry a terminal edge, otherwise the recursive import of all of it"""
        ctx, nm = self.ctx, self.name
        eng, cl = self.run(self.root)
        ctx.require('results of ' + self.root, len(cl.finals), 3)
        z, o = self.lib.zero, self.lib.one
        for st, _ in cl.finals:
            e = cl.edge(eng, st.copy(), mk('arg', 0))
            t, r, i = e
            eff = [x for x in foreign(st) if x[0] in ('get', 'put', 'st')]
            try:
                if t.k == 'rec':
                    self.call_of_public(eng, st, t)
                    sc = (mk('sc', t, 0), mk('sc', t, 1))
                    if (r, i) == sc:
                        ok = all(eng.decide(st, mk('pcmp', 'eq', x, z)) is True for x in sc) and not eff
                        msg = 'a scratch number is the weight of the result'
                    else:
                        ok = (r, i) == tuple(cl.tn(mk('val', x)) for x in sc) and eff == [('put', sc)]
                        msg = 'the weight of the result is (%s, %s) after %s' % (show(r)[:80], show(i)[:80], [x[0] for x in eff])
                elif t.k == 'glob' and 'terminal' in t.a[0] and (r, i) == (o, z):
                    ok, msg = self.is_size(eng, st, 0), 'the one terminal stands for an operand that is not empty'
                elif t.k == 'glob' and 'terminal' in t.a[0] and r.k == 'tn' and i.k == 'tn':
                    ok = self.is_size(eng, st, 1) and self.first(eng, st, (r.a[0], i.a[0]))
                    msg = 'a terminal with weight (%s, %s) is returned' % (show(r)[:80], show(i)[:80])
                else:
                    ok, msg = False, 'the result (%s, %s, %s) has no recognised meaning' % (show(t)[:80], show(r)[:60], show(i)[:60])
                ok = ok and (not eff or t.k == 'rec')
            except Bad as b:
                ok, msg = False, str(b)
            ctx.ob('%s: the diagram of the whole operand' % nm, ok, msg, nm, eng.trace(st))


def foreign(st):
    """effects but for the writing of the result"""
    return [x for x in st.c[1] if not (x[0] == 'st' and pbase(x[1]) is mk('arg', 0))]


class Vector(Import):
    name = 'makeStateFromVector'

    def whole(self, eng, cl, st):
        # result, package, first, last, level
        b, e = (mk('load', ptr(mk('arg', k)), None) for k in (2, 3))
        self.level = mk('arg', 4)
        self.b = b
        self.S = Size({mk('ptrtoint', e): {'E': F(1)}, mk('ptrtoint', b): {'B': F(1)}, self.level: {'K': F(1), 1: F(-1)}})
        orig = self.S.ev

        def ev(t):
            r = orig(t)
            if r is not None and r.get('E') and r.get('B') == -r['E']:
                c = r.pop('E')
                r.pop('B')
                r['N'] = r.get('N', 0) + 16 * c
            return r
        self.S.ev = ev
        self.last = e
        return ({}, {'N': F(1)})

    def pos(self, fix, t):
        t = as_ptr(t) if t.k != 'ptr' else t
        if t.a[0] is self.last and t.a[1] == 0 or t is self.last:
            return self.fixed(fix, {'N': F(1)})
        r = address(self.S, t, self.b, 16)
        return None if r is None else self.fixed(fix, r)

    def sub(self, region, j):
        lo, n = region
        h = {x: c / 2 for x, c in n.items()}
        return ladd_(lo, h, j), h

    def same_call(self, t, region, lv, fix):
        lo, n = region
        b, e, level = t.a
        want = [self.fixed(fix, x) for x in (lo, ladd_(lo, n), lv)]
        got = [self.pos(fix, b), self.pos(fix, e), self.fixed(fix, self.S.ev(level))]
        if want != got:
            raise Bad('a part is made of the entries %s to %s on level %s, expected %s to %s on level %s' % tuple(lshow(x) for x in got + want))

    def entry(self, eng, st, v, region, fix):
        lo = self.fixed(fix, region[0])
        for x, d in zip(v, (0, 8)):
            a = as_ptr(x.a[0]) if x.k == 'load' else None
            p = None if a is None else self.pos(fix, ptr(a.a[0], a.a[1] - d))
            if p is None or p != lo:
                raise Bad('an entry is %s where entry %s is expected' % (show(x)[:100], lshow(lo)))

    # -- the user's function: result, package, vector
    def parts(self):
        v = mk('arg', 2)
        return mk('load', ptr(v), None), mk('load', ptr(v, 8), None)

    def size_term(self):
        b, e = self.parts()
        return mk('isdiv', 64, t_add(64, mk('ptrtoint', e), mk('ptrtoint', b), -1), ci(64, 16))

    def is_size(self, eng, st, n):
        b, e = self.parts()
        if n == 0:
            return eng.decide(st, mk('pcmp', 'eq', b, e)) is True or eng.decide(st, mk('icmp', 'eq', self.size_term(), ci(64, 0), 64)) is True
        return eng.decide(st, mk('icmp', 'eq', self.size_term(), ci(64, n), 64)) is True

    def first(self, eng, st, v):
        b, e = self.parts()
        return all(x.k == 'load' and as_ptr(x.a[0]) is ptr(b, d) for x, d in zip(v, (0, 8)))

    def call_of_public(self, eng, st, t):
        b, e = self.parts()
        if t.a[0] is not b or t.a[1] is not e:
            raise Bad('the import is made of %s to %s' % (show(t.a[0]), show(t.a[1])))
        r = Size({self.size_term(): {'N': F(1)}}).ev(t.a[2])
        if r != {'K': F(1), 1: F(-1)}:
            raise Bad('the import starts at level %s' % show(t.a[2])[:120])


def lshow(r):
    if r is None:
        return '?'
    return '+'.join(('%s*%s' % (c, x) if x != 1 else str(c)) for x, c in sorted(r.items(), key=str)) or '0'


class Matrix(Import):
    name = 'makeDDFromMatrix'

    def whole(self, eng, cl, st):
        # result, package, matrix, level, row begin, row end, column begin, column end
        self.level = mk('arg', 3)
        r0, r1, c0, c1 = (mk('arg', k) for k in (4, 5, 6, 7))
        self.S = Size({self.level: {'K': F(1), 1: F(-1)}, r0: {'R': F(1)}, r1: {'R': F(1), 'N': F(1)}, c0: {'C': F(1)}, c1: {'C': F(1), 'N': F(1)}})
        orig = self.S.ev

        def ev(t):
            # (x + y) / 2 with y - x a multiple of N is exact only in sum; the start of a part is a multiple of its size
            return orig(t)
        self.S.ev = ev
        return ({'R': F(1)}, {'C': F(1)}, {'N': F(1)})

    def sub(self, region, j):
        r, c, n = region
        h = {x: k / 2 for x, k in n.items()}
        return ladd_(r, h, j >> 1), ladd_(c, h, j & 1), h

    def same_call(self, t, region, lv, fix):
        mat, level, *rc = t.a
        if mat is not mk('arg', 2):
            raise Bad('a part is made of another matrix')
        r, c, n = region
        want = [self.fixed(fix, x) for x in (lv, r, ladd_(r, n), c, ladd_(c, n))]
        got = [self.fixed(fix, self.S.ev(x)) for x in (level, *rc)]
        if want != got:
            raise Bad('a part is made with level, rows and columns %s, expected %s' % ([lshow(x) for x in got], [lshow(x) for x in want]))

    def entry(self, eng, st, v, region, fix):
        for x, d in zip(v, (0, 8)):
            got = self.cell(x, d)
            want = [self.fixed(fix, q) for q in region[:2]]
            if got is None or [self.fixed(fix, q) for q in got] != want:
                raise Bad('an entry is %s' % show(x)[:120])

    def cell(self, x, d):
        """(row, column) of the double of the matrix argument that x reads"""
        if x.k != 'load':
            return None
        a = as_ptr(x.a[0])
        # [row vector's data + 16*column + d]
        b = a.a[0]
        col = {1: F(a.a[1] - d, 16)} if a.a[1] != d else {}
        if b.k == 'idx' and b.a[1] == 16:
            r = self.S.ev(b.a[2])
            if r is None or poff(b.a[0]) % 16:
                return None
            col = ladd_(col, ladd_(r, {1: F(poff(b.a[0]), 16)}))
            b = pbase(b.a[0])
        if b.k != 'load':
            return None
        a = as_ptr(b.a[0])
        b = a.a[0]
        row = {1: F(a.a[1], 24)} if a.a[1] else {}
        if b.k == 'idx' and b.a[1] == 24:
            r = self.S.ev(b.a[2])
            if r is None or poff(b.a[0]):
                return None
            row = ladd_(row, r)
            b = pbase(b.a[0])
        if b.k == 'load' and as_ptr(b.a[0]) is ptr(mk('arg', 2)):
            return row, col
        return None

    # -- the user's function: result, package, matrix
    def size_term(self):
        v = mk('arg', 2)
        b, e = mk('load', ptr(v), None), mk('load', ptr(v, 8), None)
        return mk('isdiv', 64, t_add(64, mk('ptrtoint', e), mk('ptrtoint', b), -1), ci(64, 24))

    def width_term(self):
        b = mk('load', ptr(mk('arg', 2)), None)
        x, y = mk('load', ptr(b), None), mk('load', ptr(b, 8), None)
        return mk('isdiv', 64, t_add(64, mk('ptrtoint', y), mk('ptrtoint', x), -1), ci(64, 16))

    def is_size(self, eng, st, n):
        v = mk('arg', 2)
        if n == 0 and eng.decide(st, mk('pcmp', 'eq', mk('load', ptr(v), None), mk('load', ptr(v, 8), None))) is True:
            return True
        return eng.decide(st, mk('icmp', 'eq', self.size_term(), ci(64, n), 64)) is True

    def first(self, eng, st, v):
        self.S = Size({})
        return all(self.cell(x, d) == ({}, {}) for x, d in zip(v, (0, 8)))

    def call_of_public(self, eng, st, t):
        mat, level, *rc = t.a
        if mat is not mk('arg', 2):
            raise Bad('the import is made of another matrix')
        w = self.width_term()
        S = Size({self.size_term(): {'N': F(1)}, w: {'N': F(1)}})
        if w in rc and eng.decide(st, mk('icmp', 'eq', w, self.size_term(), 64)) is not True:
            raise Bad('the matrix is not known to be square')
        want = [{'K': F(1), 1: F(-1)}, {}, {'N': F(1)}, {}, {'N': F(1)}]
        got = [S.ev(x) for x in (level, *rc)]
        if got != want:
            raise Bad('the import is made with level, rows and columns %s, expected %s' % ([lshow(x) for x in got], [lshow(x) for x in want]))


def imports(ctx):
    m0 = llvmir.Module(ctx.ir())
    roots = ['e_makeStateFromVector', 'e_makeDDFromMatrix']
    heads = {}
    for r in roots:
        h = m0.heads(r)
        if len(h) != 1:
            raise AnalysisError('%d recursive functions reached from %s' % (len(h), r))
        heads[r] = h[0]
    c = cut()
    m = ctx.module(roots, lambda s, d: c(s, d) or s.startswith('dd::ComplexNumbers::') and s.split('::')[-1] in ('getCached', 'returnToCache'))
    lib = denote.Lib(ctx, m)
    for r, k in zip(roots, (Vector, Matrix)):
        u = k(ctx, m, lib, r, heads[r])
        u.recursive()
        u.public()


def check(ctx):
    m = ctx.module(['e_makeZeroState', 'e_makeBasisState_bool', 'e_makeBasisState_bs', 'e_makeZeroDensityOperator'], cut())
    lib = denote.Lib(ctx, m)
    enum = ctx.di().enum('BasisStates')
    states(ctx, m, lib, enum)
    imports(ctx)
    ctx.rule('Every edge of a construction is given a role: the state on levels up to k; the entries of a region of the vector or matrix. The roles of what a loop carries are proved inductive; a node made '
             'at level k must have exactly the amplitudes asked for at that level in front of the state below; a part of an import must be made of the right halves or quarters, down to single entries.')
    ctx.assume.append('Operands have a power of two of entries and matrices are square (C21); levels and numbers of qubits fit their types; a node of a state with unit amplitudes is returned with weight one (C30); '
                      'the kinds of basis states are those of the enumeration.')
