"""C34: counting the nodes of a diagram and testing it for the identity look at every node there is."""
from common import *
import llvmir
from absint import *
from build import BuildClient, NE
from poly import poly, C
import denote

SETS = ('std::unordered_set::', 'std::set::')


def set_cut(*recs):
    def cut(s, d):
        if d in recs or s.startswith(SETS):
            return True
        if s in ('std::operator==', 'std::operator!=', 'std::__detail::operator==', 'std::__detail::operator!=') and 'iterator' in d.split('(')[-1] + d:
            return True
        n = s.split('::')[-1]
        if 'iterator' in s.split('::')[-2] if s.count('::') else False:
            return True
        return s.startswith('dd::') and n in ('mag2', 'arg', 'mag', 'isIdentity', 'getActiveNodeCount')
    return cut


def used(fn, inst):
    return any(('v', inst.id) in i.ops for b in fn.blocks for i in b.insts) or any(('v', inst.id) in [x for x in p.ops] for b in fn.blocks for p in b.phis)


class InspectClient(BuildClient):
    """sets of nodes only grow here: what is in stays in; whether another node is in is asked anew after every call"""
    def __init__(self, lib, rec):
        super().__init__(lib)
        self.rec = rec
        self.bad = []

    def now(self, st):
        return sum(1 for e in st.c[1] if e[0] in ('rec', 'ins'))

    def known_in(self, eng, st, s, k):
        """True, False or the question"""
        for e in st.c[1]:
            if e[0] in ('ins', 'rec') and e[1] is s and (e[2] is k or eng.decide(st, mk('pcmp', 'eq', e[2], k)) is True):
                return True
        for i in range(self.now(st) + 1):
            if eng.decide(st, mk('in', s, k, i)) is True:
                return True
        if any(e[0] == 'fresh' and e[1] is s for e in st.c[1]) and not any(e[0] in ('ins', 'rec') and e[1] is s for e in st.c[1]):
            return False
        d = eng.decide(st, mk('in', s, k, self.now(st)))
        return d

    def ask(self, eng, st, s, k):
        d = self.known_in(eng, st, s, k)
        return [(st, d)] if d is not None else eng.split(st, mk('in', s, k, self.now(st)))

    def member(self, eng, st, s, k, give):
        out = []
        for t, v in self.ask(eng, st, s, k):
            give(t, v)
            out.append(t)
        return out

    def call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if full == self.rec:
            return self.recursive(eng, st, inst, args)
        if short.startswith(SETS):
            return self.sets(eng, st, inst, n, full, args)
        if n in ('operator==', 'operator!='):
            a, b = (x if x.k in ('it', 'itend') else eng.load(st, aspval(x), 8, 'ptr') for x in args[:2])
            for x, y in ((a, b), (b, a)):
                if x.k == 'it' and y.k == 'itend':
                    st.env[inst.id] = ci(1, int((x.a[1] is True) != (n == 'operator==')))
                    return True
            raise AnalysisError('comparison of the iterators %s and %s' % (show(a)[:60], show(b)[:60]))
        if 'iterator' in short:
            eng.store(st, args[0], eng.load(st, args[1], 8, 'ptr') if len(args) > 1 else UNDEF, 8)
            return True
        if short.startswith('dd::') and n in ('mag2', 'arg', 'mag'):
            w = args[-2:]
            if len(denote.params(full)) == 1 and not denote.params(full)[0].startswith('double'):
                a = as_ptr(args[-1])
                w = [eng.load(st, aspval(ptr(a.a[0], a.a[1] + o)), 8, 'ptr') for o in (0, 8)]
            st.env[inst.id] = mk('num', 'mag2', *w) if n != 'arg' else mk('num', 'arg', *w)
            if n == 'mag':
                st.env[inst.id] = mk('num', 'mag', *w)
            return True
        if short.startswith('dd::') and n == 'isIdentity':
            out = []
            t = mk('ident', aspval(as_ptr(args[-1])))
            for s, v in eng.split(st, t):
                s.env[inst.id] = ci(1, int(v))
                out.append(s)
            return out
        if short.startswith('dd::') and n == 'getActiveNodeCount':
            st.env[inst.id] = eng.fresh(st, inst)
            return True
        if short in ('atexit', '__cxa_atexit', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'):
            if inst.ty != 'void':
                st.env[inst.id] = eng.fresh(st, inst)
            return True
        return super().call(eng, st, inst, short, full, args)

    def sets(self, eng, st, inst, n, full, args):
        s = aspval(as_ptr(args[0]))
        if n in ('insert', 'emplace', 'find', 'count', 'contains'):
            k = eng.load(st, aspval(args[1]), 8, 'ptr')
        if n in ('insert', 'emplace'):
            if not used(eng.fn, inst):
                self.effect(st, ('ins', s, k, None))
                st.env[inst.id] = mk('agg', mk('it', k, True), UNDEF)
                return True

            def put(t, v):
                self.effect(t, ('ins', s, k, v))
                t.env[inst.id] = mk('agg', mk('it', k, True), ci(8, int(v is False)))
            return self.member(eng, st, s, k, put)
        if n == 'find':
            return self.member(eng, st, s, k, lambda t, v: t.env.__setitem__(inst.id, mk('it', k, v)))
        if n in ('count', 'contains'):
            return self.member(eng, st, s, k, lambda t, v: t.env.__setitem__(inst.id, ci(64 if n == 'count' else 1, int(v))))
        if n in ('end', 'cend'):
            st.env[inst.id] = mk('itend', s)
        elif n == 'clear' or n in ('unordered_set', 'set'):
            if any(e[0] in ('ins', 'rec') for e in st.c[1]):
                self.bad.append((st.copy(), 'the set of the nodes met is emptied'))
            self.effect(st, ('fresh', s))
        elif n in ('max_load_factor', 'reserve', 'rehash') or n.startswith('~'):
            pass
        else:
            raise AnalysisError('no contract for %s' % full[:120])
        return True

    def recursive(self, eng, st, inst, args):
        i = next(k for k, t in enumerate(denote.params(self.rec)) if t.startswith('dd::Edge<'))
        first = len(args) - len(denote.params(self.rec))
        p = eng.load(st, aspval(args[first + i]), 8, 'ptr')
        rest = [x for k, x in enumerate(args[first:]) if k != i]
        ss = [j for j, t in enumerate([t for k, t in enumerate(denote.params(self.rec)) if k != i]) if t.startswith(('std::unordered_set<', 'std::set<'))]
        s = aspval(as_ptr(rest[ss[0]]))
        more = tuple(x for j, x in enumerate(rest) if j != ss[0])
        before = self.known_in(eng, st, s, p)
        r = eng.fresh(st, inst)
        if inst.ty == 'i1':
            out = []
            for t, v in eng.split(st, r):
                t.env[inst.id] = ci(1, int(v))
                self.effect(t, ('rec', s, p, v, before, more))
                out.append(t)
            return out
        st.env[inst.id] = r
        self.effect(st, ('rec', s, p, r, before, more))
        return True


class Unit:
    def __init__(self, ctx, m, lib, fn, rec, nm, front=False):
        self.ctx, self.nm, self.rec, self.lib = ctx, nm, rec, lib
        self.cl = InspectClient(lib, rec)
        f = m.fn(fn)
        self.eng = Engine(f, self.cl, m.statics)
        self.eng.run()
        ctx.ran(self.eng)
        self.loc = f.where(f.blocks[0].insts[-1])
        ps = denote.params(m.dname(fn)) if not front else None
        self.args = self.eng.args
        for st, why in self.cl.bad:
            ctx.ob('%s: the nodes met stay known' % nm, False, why, self.loc, self.eng.trace(st))

    def ob(self, key, ok, msg, st):
        return self.ctx.ob('%s: %s' % (self.nm, key), ok, msg, self.loc, self.eng.trace(st))

    def outcomes(self):
        out = [(st, val, [e for e in st.c[1]]) for st, val in self.cl.finals]
        if not out:
            raise AnalysisError('no path of %s returns' % self.nm)
        return out

    def succ(self, st, p, j):
        return tuple(self.eng.load(st, aspval(ptr(as_ptr(p), NE * j + o)), 8, 'ptr') for o in (0, 8, 16))

    def terminal(self, st, p):
        got = [self.eng.decide(st, mk('pcmp', 'eq', p, t)) for t in self.lib.terms.values()]
        return True if True in got else False if got and all(g is False for g in got) else None


def positions(full, first):
    ps = denote.params(full)
    e = [j for j, t in enumerate(ps) if t.startswith('dd::Edge<')]
    s = [j for j, t in enumerate(ps) if t.startswith(('std::unordered_set<', 'std::set<'))]
    if len(e) != 1 or len(s) != 1:
        raise AnalysisError('arguments not recognised in ' + full[:120])
    return first + e[0], first + s[0], [first + j for j in range(len(ps)) if j not in (e[0], s[0])]


class Count(Unit):
    def check(self, nsucc):
        ei, si, _ = positions(self.rec, len(self.args) - len(denote.params(self.rec)))
        A = self.args
        own = as_set = None
        modes = set()
        for st, val, ef in self.outcomes():
            s = aspval(as_ptr(A[si]))
            p = self.eng.load(st, aspval(A[ei]), 8, 'ptr')
            ins = [e for e in ef if e[0] == 'ins']
            recs = [e for e in ef if e[0] == 'rec']
            self.ob('only the set handed over is used', all(e[1] is s for e in ins + recs), 'another set is used', st)
            before = self.eng.decide(st, mk('in', s, p, 0))
            modes.add(before is not None)
            if before is True:
                self.ob('a node met before is not counted', val is ci(32, 0) and not recs, 'it gives %s' % show(val), st)
                continue
            self.ob('the node is noted as met', any(e[2] is p for e in ins), 'it is not entered into the set', st)
            self.ob('nothing but the node is noted as met', all(e[2] is p for e in ins), 'entered: %s' % [show(e[2]) for e in ins], st)
            want = ci(32, 1)
            for e in recs:
                want = t_add(32, want, e[3])
            self.ob('the count is one and what the successors give', val is want, 'it is %s instead of %s' % (show(val), show(want)), st)
            kids = [self.succ(st, p, k)[0] for k in range(nsucc)]
            self.ob('only successors are counted', all(any(e[2] is k for k in kids) for e in recs), 'other nodes are counted', st)
            self.fresh = getattr(self, 'fresh', [])
            self.fresh += [(e[4], st) for e in recs]
            if self.terminal(st, p) is True or self.eng.decide(st, mk('pcmp', 'eq', p, NULL)) is True:
                continue
            for j, k in enumerate(kids):
                got = [e for e in recs if e[2] is k or self.eng.decide(st, mk('pcmp', 'eq', e[2], k)) is True]
                ok = got or self.eng.decide(st, mk('pcmp', 'eq', k, NULL)) is True or self.cl.known_in(self.eng, st, s, k) is True
                self.ob('every successor not met before is counted (successor %d)' % j, ok, 'it is left out', st)
        if modes != {True}:
            for b, st in getattr(self, 'fresh', []):
                self.ob('a successor is counted only if it was not met before', b is False, 'it may have been counted already', st)
        return modes == {True}


class Front(Unit):
    """the public function: an empty set, the diagram and whatever else was asked for"""
    def check(self, ei, more, guarded=False):
        A = self.args
        for st, val, ef in self.outcomes():
            recs = [e for e in ef if e[0] == 'rec']
            if not self.ob('the diagram is walked once, from the root', len(recs) == 1 and recs[0][2] is self.eng.load(st, aspval(A[ei]), 8, 'ptr'), '%d walks' % len(recs), st):
                continue
            e = recs[0]
            i = ef.index(e)
            self.ob('it begins with no node met', any(x[0] == 'fresh' and x[1] is e[1] for x in ef[:i]) and not any(x[0] == 'ins' for x in ef[:i]), 'the set may hold nodes from before', st)
            self.ob('the result is that of the walk', val is (ci(1, int(e[3])) if isinstance(e[3], bool) else e[3]), 'it is %s' % show(val), st)
            self.ob('what was asked for is handed on', all(x in e[5] for x in [A[k] for k in more]), 'handed on: %s' % [show(x) for x in e[5]], st)


def pol(t):
    return poly(t)


class Close(Unit):
    def check(self):
        ei, si, rest = positions(self.rec, len(self.args) - len(denote.params(self.rec)))
        if len(rest) != 1:
            raise AnalysisError('arguments not recognised in ' + self.rec[:120])
        A, eng = self.args, self.eng
        tol = A[rest[0]]
        for st, val, ef in self.outcomes():
            s = aspval(as_ptr(A[si]))
            p = eng.load(st, aspval(A[ei]), 8, 'ptr')
            ins = [e for e in ef if e[0] == 'ins']
            recs = [e for e in ef if e[0] == 'rec']
            self.ob('only the set handed over is used', all(e[1] is s for e in ins + recs), 'another set is used', st)
            self.ob('nothing but the node is noted as met', all(e[2] is p for e in ins), 'entered: %s' % [show(e[2]) for e in ins], st)
            self.ob('the tolerance is handed on', all(e[5] == (tol,) for e in recs), 'another tolerance is handed on', st)
            kids = [self.succ(st, p, k) for k in range(4)]
            self.ob('only successors on the diagonal are looked at', all(e[2] in (kids[0][0], kids[3][0]) for e in recs), 'others are looked at', st)
            if val.k != 'i':
                outs = eng.split(st, val)
            else:
                outs = [(st, bool(val.a[1] & 1))]
            for t, v in outs:
                self.judge(t, v, s, p, kids, recs, tol)

    def judge(self, st, v, s, p, kids, recs, tol):
        eng = self.eng
        small = {k: self.within(st, mk('num', 'mag2', *kids[k][1:]), None, tol) for k in (1, 2, 3)}
        one = {k: self.both(self.within(st, mk('num', 'mag2', *kids[k][1:]), 1, tol), self.within(st, mk('num', 'arg', *kids[k][1:]), 0, tol)) for k in (0, 3)}
        last = True if small[3] or one[3] else False if small[3] is False and one[3] is False else None
        below = {}
        for k in (0, 3):
            got = {e[3] for e in recs if e[2] is kids[k][0] or eng.decide(st, mk('pcmp', 'eq', e[2], kids[k][0])) is True}
            below[k] = got.pop() if len(got) == 1 else True if not got and self.fine(st, s, kids[k][0]) else None
        conds = [('the upper right block is small', small[1]), ('the lower left block is small', small[2]), ('the upper left weight is one', one[0]), ('the lower right weight is one or small', last),
                 ('the upper left block is close to the identity', below[0]), ('the lower right block is close to the identity', below[3])]
        if v:
            if self.fine(st, s, p):
                return
            for n, c in conds:
                self.ob('close to the identity only if %s' % n, c is True, 'this %s' % ('does not hold' if c is False else 'was not looked at'), st)
        else:
            self.ob('not close to the identity only for a reason', any(c is False for _, c in conds), 'nothing that was looked at speaks against it', st)

    def fine(self, st, s, p):
        """known to be the identity, or all that is known about it so far is that it is close (a node that is not ends the walk)"""
        return self.eng.decide(st, mk('ident', p)) is True or self.eng.decide(st, mk('in', s, p, 0)) is True or self.terminal(st, p) is True

    @staticmethod
    def both(a, b):
        return False if a is False or b is False else True if a and b else None

    def within(self, st, x, c, tol):
        """|x - c| <= tol (x <= tol for c None), from the comparisons made on the path; numbers are not NaN"""
        t = pol(tol)
        got = None
        for f, val in list(st.facts.items()):
            if f[0] not in ('fc', 'f') or len(f) < 4:
                continue
            op, a, b = f[1], f[2], f[3]
            if op not in ('olt', 'ole'):
                continue
            for lo, hi, strict, truth in ((a, b, op == 'olt', val), (b, a, op == 'ole', not val)):
                # truth: lo <(=) hi
                if truth is not True:
                    continue
                if lo is tol and self.dist(hi, x, c):
                    got = False         # tol < |x-c|
                if hi is tol and self.dist(lo, x, c):
                    got = True
        return got

    def dist(self, d, x, c):
        if c is None:
            return d is x or d.k == 'fabs' and d.a[0] is x
        if d.k != 'fabs':
            return False
        e = pol(d.a[0])
        want = pol(x) - C(c)
        return (e - want).zero() or (e + want).zero()


def check(ctx):
    ctx.rule('Every path of the counting recursion notes the node once, counts one and adds what every successor not met before gives, whether a successor was met being asked after the one before was walked; '
             'the answer of the identity test follows, on every path, from the comparisons made on it, and both diagonal successors are looked at before it is yes.')
    ctx.assume = ['std::unordered_set behaves as documented', 'diagrams have no cycles', 'weights are numbers', 'marks (C27)']
    m0 = llvmir.Module(ctx.ir())

    def head(root):
        hs = [h for h in m0.heads(root) if 'dd::' in m0.dname(h).split('(')[0]]
        if len(hs) != 1:
            raise AnalysisError('%d recursive functions reached from %s' % (len(hs), root))
        return hs[0], m0.dname(hs[0])
    roots = ['e_size_v', 'e_size_m', 'e_isCloseToIdentity']
    hs = {r: head(r) for r in roots}
    m = ctx.module(roots, set_cut(*[d for _, d in hs.values()]))
    lib = denote.Lib(ctx, m)
    for r, n in (('e_size_v', 2), ('e_size_m', 4)):
        f, d = hs[r]
        nm = 'size of a %s' % ('vector' if n == 2 else 'matrix')
        Count(ctx, m, lib, f, d, nm).check(n)
        Front(ctx, m, lib, r, d, nm + ' (root)', True).check(1, [])
    f, d = hs['e_isCloseToIdentity']
    Close(ctx, m, lib, f, d, 'isCloseToIdentity').check()
    Front(ctx, m, lib, 'e_isCloseToIdentity', d, 'isCloseToIdentity (root)', True).check(1, [2])
