"""Roles of the edges a construction function handles: which part of the intended matrix or vector each one stands for, over which levels.

Every edge value gets a role (name, tags, hi): it stands for `name` on the levels up to hi (a linear form).  What an edge stands for when a loop
is entered is the base case; an iteration has to take it to the same role one level higher; after the loop the counter has its exit value."""
from build import *


class Bad(Exception):
    pass


class L:
    """linear form, hashable"""
    __slots__ = ('p', 'c')

    def __init__(self, p, c):
        self.p = frozenset((x, n) for x, n in (p.items() if isinstance(p, dict) else p) if n)
        self.c = c

    def __eq__(self, o):
        return isinstance(o, L) and self.p == o.p and self.c == o.c

    def __hash__(self):
        return hash((self.p, self.c))

    def __add__(self, o):
        if isinstance(o, int):
            return L(self.p, self.c + o)
        d = dict(self.p)
        for x, n in o.p:
            d[x] = d.get(x, 0) + n
        return L(d, self.c + o.c)

    def __sub__(self, o):
        return self + (-o if isinstance(o, int) else o.scale(-1))

    def scale(self, k):
        return L({x: n * k for x, n in self.p}, self.c * k)

    def subst(self, x, l):
        d = dict(self.p)
        n = d.pop(x, 0)
        return L(d, self.c) + l.scale(n) if n else self

    def const(self):
        return self.c if not self.p else None

    def __repr__(self):
        s = '+'.join(('' if n == 1 else '%d*' % n) + show(x) for x, n in sorted(self.p, key=lambda q: q[0].n))
        return (s + ('%+d' % self.c if self.c else '')) if s else str(self.c)


ZERO = ('zero',)
ONE = ('one',)


def rsub(role, x, l):
    return tuple(r.subst(x, l) if isinstance(r, L) else r for r in role)


def rhi(role, hi):
    return role[:-1] + (hi,)


def rshow(r):
    return '%s(%s)' % (r[0], ', '.join(repr(x) if isinstance(x, L) else str(x) for x in r[1:]))


class Structure:
    def __init__(self, eng, cl, leaf, node, unit_weight=False):
        self.eng, self.cl, self.leaf, self.node = eng, cl, leaf, node
        self.lib = cl.lib
        self.base = {}
        self.moving = {}
        self.todo = []
        self.counter_ = {}
        self.busy = set()
        self.nroles = 0
        self.unit = unit_weight     # an accumulator whose top weight is one may be continued by its node alone

    # -- integers
    def lin(self, st, t, live=()):
        p, c = ilin(t)
        out = L({}, c)
        for x, n in p.items():
            out = out + self.atom(st, x, live).scale(n)
        return out

    def atom(self, st, x, live=()):
        if x.k == 'phi':
            h = x.a[0]
            if h in live or dict(st.it).get(h, 0) < 0:
                return self.main_form(h, x)
            if self.counter(h) is not None:
                m, _ = self.counter(h)
                f = self.main_form(h, x)
                if any(y is m for y, _ in f.p):
                    return f.subst(m, self.solved(st, h))
        return L({x: 1}, 0)

    def norm(self, st, r):
        """role or linear form with the values the facts fix"""
        if isinstance(r, L):
            for x, n in r.p:
                f = st.facts.get(('r', x))
                if f is not None and f[0] == f[1]:
                    r = r.subst(x, L({}, f[0]))
            return r
        return tuple(self.norm(st, x) if isinstance(x, L) else x for x in r)

    def counter(self, h):
        """(main counter phi of loop h, {phi: its value at entry})"""
        if h not in self.counter_:
            self.counter_[h] = None
            its = self.cl.iters.get(h, ())
            ents = self.cl.entries.get(h, ())
            out = {}
            for p in self.eng.fn.blocks[h].phis:
                phi = mk('phi', h, p.id)
                if not its or not all(lsub(ilin(it[0][p.id]), ilin(phi)) == ({}, 1) for it in its):
                    continue
                vs = {self.lin(e, e.env[p.id]) for e in ents}
                if len(vs) == 1:
                    out[phi] = vs.pop()
            if out:
                self.counter_[h] = (min(out, key=lambda x: x.a[1]), out)
        return self.counter_[h]

    def main_form(self, h, x):
        c = self.counter(h)
        if c is None or x not in c[1]:
            return L({x: 1}, 0)
        m, ini = c
        return L({m: 1}, 0) if x is m else L({m: 1}, 0) + ini[x] - ini[m]

    def solved(self, st, h):
        """value of the main counter of loop h after its exit"""
        m, _ = self.counter(h)
        ex = sorted(self.cl.exits.get(h, ()), key=lambda e: e[0].n)
        if len(ex) > 1:
            ex = [(c, v) for c, v in ex if self.eng.decide(st, c) == v]
        sols = set()
        for c, v in ex:
            if c.k != 'icmp':
                continue
            pred, a, b = c.a[:3]
            d = self.lin(st, a, (h,)) - self.lin(st, b, (h,))
            k = dict(d.p).get(m, 0)
            if k not in (1, -1):
                continue
            if k == -1:
                d, k = d.scale(-1), 1
                pred = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
            op = pred[-2:]
            op = op if v else {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[op]
            at = {'ge': 0, 'gt': 1, 'eq': 0}.get(op)
            if at is None:
                continue
            # m + rest == at
            sols.add((d - L({m: 1}, 0)).scale(-1) + at)
        if len(sols) != 1:
            raise Bad('the value of the counter after the loop at %s could not be determined' % self.eng.fn.where(self.eng.fn.blocks[h].insts[-1]))
        return sols.pop()

    # -- edges
    def role(self, st, e):
        t, r, i = e
        z, o = self.lib.zero, self.lib.one
        self.nroles += 1
        if r is z and i is z:
            return ZERO
        term = t.k == 'glob' and 'terminal' in t.a[0]
        if term and r is o and i is z:
            x = self.leaf(self, st, e)
            return x if x is not None else ONE
        own = r.k == 'nw' and i.k == 'nw' and r.a[0] is t and i.a[0] is t and (r.a[1], i.a[1]) == (0, 1)
        if t.k in ('node', 'ident') and own:
            if t.k == 'ident':
                return ('I', self.lin(st, t.a[0]), self.lin(st, t.a[1]))
            return self.node_role(st, t)
        cs = [self.carried(x) for x in e]
        if None not in cs and len({h for h, c in cs}) == 1:
            return self.header(st, cs[0][0], tuple(c for h, c in cs))
        x = self.leaf(self, st, e)
        if x is None:
            raise Bad('edge (%s, %s, %s) has no recognised meaning' % (show(t)[:120], show(r)[:80], show(i)[:80]))
        return x

    def node_role(self, st, t):
        if t.a[1] is not False:
            raise Bad('node made with cached weights')
        lv = self.lin(st, t.a[0])
        kids = [self.role(st, e) for e in self.cl.children(t)]
        return self.node(self, st, lv, kids, t)

    def carried(self, x):
        """(loop, place) of a value that a loop carries: in a register or in a local"""
        if x.k == 'phi':
            return x.a[0], ('reg', x.a[1])
        if x.k == 'load' and isinstance(x.a[1], tuple) and x.a[1][0] == 'loop':
            a = as_ptr(x.a[0])
            if a.a[0].k in ('alloca', 'arg'):
                return x.a[1][1], ('mem', a.a[0], a.a[1])
        return None

    def at(self, st, key):
        """the edge in the three places"""
        s = None
        out = []
        for c in key:
            if c[0] == 'reg':
                out.append(st.env[c[1]])
            else:
                s = s or st.copy()
                out.append(self.eng.load(s, aspval(ptr(c[1], c[2])), 8, 'ptr'))
        return tuple(out)

    def partner(self, t):
        """the whole edge that a carried node pointer belongs to: places of weights that are those of the node at every entry and after every iteration"""
        c = self.carried(t)
        if c is None:
            return None
        h, c0 = c
        sts = list(self.cl.entries.get(h, ())) + list(self.cl.iter_states.get(h, ()))
        hd = self.cl.hstates[h][0]
        places = [('reg', p.id) for p in self.eng.fn.blocks[h].phis]
        bs = sorted({k[0] for s in sts for k in s.mem if k[0].k == 'alloca'} | {b for s in sts for b in s.rng if b.k == 'alloca'}, key=lambda b: b.n)
        for b in bs:
            offs = {k[1] for s in sts for k in s.mem if k[0] is b} | {o for s in sts for l, n, *_ in s.rng.get(b, ()) for o in range(l, l + n, 8)}
            places += [('mem', b, o) for o in sorted(offs) if o % 8 == 0]
        es = [self.at(s, (c0,))[0] for s in sts]
        ws = []
        for k in (0, 1):
            ws.append([c for c in places if all(self.weight_of(x, k) is self.at(s, (c,))[0] for s, x in zip(sts, es))])
        if ws[0] and ws[1]:
            return self.at(hd, (c0, ws[0][0], ws[1][0]))
        return None

    def weight_of(self, t, k):
        if t.k == 'node':
            return self.cl.made(t)[1 + k]
        if t.k == 'glob' and 'terminal' in t.a[0]:
            return (self.lib.one, self.lib.zero)[k]
        return 0

    def header(self, st, h, key):
        r = self.base_role(h, key)
        c = self.counter(h)
        if c is not None and dict(st.it).get(h, 0) >= 0 and any(isinstance(x, L) and any(y is c[0] for y, _ in x.p) for x in r):
            r = rsub(r, c[0], self.solved(st, h))
        return r

    def base_role(self, h, key):
        k = (h, key)
        if k in self.base:
            return self.base[k]
        if k in self.busy:
            raise Bad('circular use of an edge')
        self.busy.add(k)
        try:
            rs = {self.role(e, self.at(e, key)) for e in self.cl.entries[h]}
        finally:
            self.busy.discard(k)
        if len(rs) != 1:
            raise Bad('an edge has different meanings on entry to the loop: ' + ' / '.join(sorted(rshow(r) for r in rs))[:300])
        r = rs.pop()
        hd = self.at(self.cl.hstates[h][0], key)
        moves = any(self.at(s, key) != hd for s in self.cl.iter_states.get(h, ()))
        c = self.counter(h)
        if moves:
            if r is ONE or r == ONE:
                r = self.start_role(h, key, r)
            if isinstance(r[-1], L):
                if c is None:
                    raise Bad('no counter for the loop at %s' % self.eng.fn.where(self.eng.fn.blocks[h].insts[-1]))
                r = rhi(r, r[-1] + L({c[0]: 1}, 0) - c[1][c[0]])
        self.base[k] = r
        self.moving[k] = moves
        self.todo.append(k)
        return r

    def start_role(self, h, key, r):
        return r

    def verify(self, report):
        """every role assumed at a loop header is re-established, one level higher, by every iteration"""
        n = 0
        while self.todo:
            h, key = self.todo.pop()
            r = self.base[(h, key)]
            c = self.counter(h)
            want = rsub(r, c[0], L({c[0]: 1}, 1)) if c is not None and self.moving[(h, key)] else r
            for s in self.cl.iter_states.get(h, ()):
                n += 1
                try:
                    got = self.role(s, self.at(s, key))
                except Bad as b:
                    report(h, key, s, False, str(b))
                    continue
                report(h, key, s, got == want, 'after the iteration the edge is %s, not %s' % (rshow(got), rshow(want)))
        return n
