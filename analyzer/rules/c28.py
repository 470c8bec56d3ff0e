"""C28: measurement follows the squared magnitudes of the weights along the paths of the diagram."""
from common import *
import llvmir
from build import *
from poly import poly, atom, C, P, psqrt, inv
import poly as poly_mod
from rules.c22 import StreamClient, STD
import denote

NUM = ('mag2', 'mag', 'getTemporary', 'getCached', 'mul', 'lookup', 'returnToCache', 'val', 'approximatelyZero', 'approximatelyOne', 'exactlyZero', 'exactlyOne')
OPS = ('incRef', 'decRef', 'garbageCollect', 'makeDDNode', 'makeGateDD', 'multiply')
PKG, ROOT = mk('arg', 1), mk('arg', 2)


def keep_out(*more):
    def cut(s, d):
        if d in more or s in more:
            return True
        n = s.split('::')[-1]
        if s.startswith('dd::'):
            return n in OPS or n in NUM and (not n.startswith(('approximately', 'exactly')) or s.startswith('dd::Complex::'))
        if s == 'std::reverse':
            return True
        if s in ('std::operator!=', 'std::operator==') and 'iterator' in d:
            return True
        return s.startswith(STD + ('std::uniform', 'std::mersenne', 'std::generate_canonical')) or '__detail' in s or s.startswith('std::__throw')
    return cut


class MeasureClient(StreamClient):
    same = False        # both successors of a node that is handled are one node

    def __init__(self, lib, rec=None, head=None):
        super().__init__(lib, rec)
        self.head = head

    fixed = None        # an edge that nothing writes to (checked)

    def widen_heap(self, eng, st, h):
        old = {}
        if self.fixed is not None:
            old = {o: eng.load(st, aspval(ptr(self.fixed, o)), 8, 'ptr') for o in (0, 8, 16)}
        eng.havoc_heap(st, ('loop', h))
        for o, t in old.items():
            st.mem[(self.fixed, o)] = (8, t)

    # -- queues: first in, first out
    def front(self, eng, st, q):
        return mk('front', aspval(as_ptr(q)), len([e for e in st.c[1] if e[0] == 'pop']))

    def header(self, eng, st, h, back, k):
        super().header(eng, st, h, back, k)
        if k < 0:
            fs = {x for c in st.mem for x in leaves(c[0]) if x.k in ('front', 'chr')} | {x for f in st.facts for y in f[1:] if isinstance(y, T) for x in leaves(y) if x.k in ('front', 'chr')}
            for t in fs:
                eng.forget(st, t)
            for c in [c for c in st.mem if any(x.k in ('front', 'chr') for x in leaves(c[0]))]:
                del st.mem[c]
            self.hstates[h][-1] = st.copy()

    def call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if self.rec is not None and full == self.rec:
            return self.recursive(eng, st, inst, args)
        if self.head is not None and full == self.head:
            return self.header_call(eng, st, inst, args)
        if short.startswith('std::_Rb_tree_const_iterator::') or short in ('std::operator!=', 'std::operator==') and 'iterator' in full:
            return self.iterator(eng, st, inst, n, args)
        if short.startswith('std::queue::'):
            return self.queue(eng, st, inst, n, full, args)
        if short.startswith('std::uniform_real_distribution'):
            return self.uniform(eng, st, inst, n, full, args)
        if short.startswith('std::map::') or short.startswith('std::unordered_map::') or short.startswith(('std::set::', 'std::unordered_set::')):
            return self.keyed(eng, st, inst, short, n, full, args)
        if short in ('std::operator<<', 'std::ostream::operator<<', 'std::basic_ostream::operator<<'):
            st.env[inst.id] = args[0]
            return True
        if short.startswith('std::allocator::') and inst.ty == 'void':
            return True
        if short.startswith(('std::basic_string::', 'std::__cxx11::basic_string::', 'std::string::')) or short == 'std::reverse':
            return self.text(eng, st, inst, n, full, args)
        if short in ('sqrt', 'std::sqrt'):
            st.env[inst.id] = mk('fn_sqrt', args[0])
            return True
        if n == 'sqrt' and args and inst.ty == 'double':
            st.env[inst.id] = mk('fn_sqrt', args[0])
            return True
        return super().call(eng, st, inst, short, full, args)

    def queue(self, eng, st, inst, n, full, args):
        if n == 'queue':
            self.effect(st, ('newq', aspval(as_ptr(args[0]))))
        elif n == 'front':
            t = self.front(eng, st, args[0])
            st.env[inst.id] = t
            if self.same:
                X = eng.load(st, t, 8, 'ptr')
                for j in (0, 1):
                    eng.store(st, aspval(ptr(X, NE * j)), mk('below', X), 8)
        elif n == 'empty':
            st.env[inst.id] = mk('none', self.front(eng, st, args[0]))
        elif n == 'size':
            st.env[inst.id] = mk('qsize', self.front(eng, st, args[0]))
        elif n == 'pop':
            self.effect(st, ('pop', aspval(as_ptr(args[0]))))
        elif n in ('push', 'emplace'):
            self.effect(st, ('push', aspval(as_ptr(args[0])), eng.load(st, args[1], 8, 'ptr')))
        elif n.startswith('~'):
            pass
        else:
            raise AnalysisError('no contract for %s' % full[:120])
        return True

    def keep_fact(self, eng, st, key, live):
        if key[0] == 'b' and key[1].k in ('none', 'az'):
            return True
        if key[0] == 'r' and key[1].k == 'load' and pbase(key[1].a[0]).k == 'chr':
            return True
        return super().keep_fact(eng, st, key, live)

    def keyed(self, eng, st, inst, short, n, full, args):
        """what is entered for a key is there afterwards; it is noted for which keys that was new"""
        k = None
        if n in ('insert', 'emplace', 'try_emplace', 'operator[]', 'insert_or_assign'):
            k = self.key(eng, st, full, args[1])
            p = self.pair(args[0], k)
            was = eng.decide(st, mk('found', p))
            if was is None and n in ('insert', 'emplace', 'try_emplace'):
                out = []
                for s, v in eng.split(st, mk('found', p)):
                    r = self.keyed(eng, s, inst, short, n, full, args)
                    out += r if isinstance(r, list) else [s]
                return out
            self.effect(st, ('entered', p, was))
        r = super().table(eng, st, inst, short, n, full, args)
        if k is None:
            return r
        if n == 'operator[]':
            if was is False:
                eng.store(st, aspval(ptr(p, 8)), cf(0.0), 8)
                st.facts[('b', mk('found', p))] = True
            return r
        for s in (r if isinstance(r, list) else [st]):
            s.facts[('b', mk('found', p))] = True
        return r

    def iterator(self, eng, st, inst, n, args):
        if n in ('_Rb_tree_const_iterator', '_Rb_tree_iterator'):
            eng.store(st, args[0], eng.load(st, args[1], 8, 'ptr') if len(args) > 1 else UNDEF, 8)
            return True
        return super().iterator(eng, st, inst, n, args)

    # -- texts
    def text(self, eng, st, inst, n, full, args):
        base = aspval(as_ptr(args[0])) if args else None
        def side(a):
            if a.k == 'textend':
                return a
            t = eng.load(st, a, 8, 'ptr') if a.k != 'i' else a
            return t if t.k == 'textend' else None
        if n == 'reverse':
            a, b = side(args[0]), side(args[1])
            if a is None or b is None or a.a[0] is not b.a[0] or (a.a[1], b.a[1]) != ('begin', 'end'):
                return None
            self.effect(st, ('flip', a.a[0]))
            return True
        if n in ('operator[]', 'at'):
            st.env[inst.id] = mk('chr', base, args[1])
            return True
        if n in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend'):
            n = n[1:] if n[0] == 'c' else n
            if inst.ty == 'void':
                eng.store(st, args[0], mk('textend', aspval(as_ptr(args[1])), n), 8)
            else:
                st.env[inst.id] = mk('textend', base, n)
            return True
        if n.startswith('~'):
            return True
        if n in ('size', 'length'):
            st.env[inst.id] = mk('textlen', base)
            return True
        if n == 'operator=':
            self.effect(st, ('text', base, aspval(as_ptr(args[1])), 0))
            st.env[inst.id] = args[0]
            return True
        if n in ('basic_string', 'assign'):
            ps = params(full)
            if ps and 'iterator' in ps[0] or len(args) >= 3 and args[2].k != 'i' and side(args[1]) is not None:
                a, b = side(args[1]), side(args[2])
                if a is None or b is None or a.a[0] is not b.a[0] or (a.a[1], b.a[1]) not in (('begin', 'end'), ('rbegin', 'rend')):
                    return None
                self.effect(st, ('text', base, a.a[0], 1 if a.a[1] == 'rbegin' else 0))
                return True
            if len(ps) >= 2 and ps[0] == 'unsigned long' and ps[1] == 'char':
                self.effect(st, ('fill', base, args[1], args[2]))
                return True
            if len(ps) == 1 and 'basic_string' in ps[0]:
                self.effect(st, ('text', base, aspval(as_ptr(args[1])), 0))
                return True
        return None

    # -- random numbers
    def uniform(self, eng, st, inst, n, full, args):
        if n == 'uniform_real_distribution':
            a = list(args[1:]) + [cf(0.0), cf(1.0)][len(args) - 1:] if len(args) in (1, 2, 3) else None
            if a is None or inst.ty != 'void':
                raise AnalysisError('no contract for %s' % full[:120])
            self.effect(st, ('range', aspval(as_ptr(args[0])), a[0], a[1]))
            return True
        if n == 'operator()':
            k = len([e for e in st.c[1] if e[0] == 'draw'])
            t = mk('drawn', inst.id, k)
            self.effect(st, ('draw', aspval(as_ptr(args[0])), aspval(as_ptr(args[1])), t))
            st.env[inst.id] = t
            return True
        if n.startswith('~') or n == 'reset':
            return True
        raise AnalysisError('no contract for %s' % full[:120])

    # -- numbers
    def k_mag2(self, eng, st, inst, short, full, args):
        r, i = self.vals(eng, st, self.num(eng, st, args[0]))
        st.env[inst.id] = eng.farith('fadd', eng.farith('fmul', r, r), eng.farith('fmul', i, i))
        return True

    def k_mag(self, eng, st, inst, short, full, args):
        self.k_mag2(eng, st, inst, short, full, args)
        st.env[inst.id] = mk('fn_sqrt', st.env[inst.id])
        return True

    def k_mul(self, eng, st, inst, short, full, args):
        d = self.num(eng, st, args[0])
        x, y = (self.vals(eng, st, self.num(eng, st, a)) for a in args[1:3])
        f = eng.farith
        v = f('fsub', f('fmul', x[0], y[0]), f('fmul', x[1], y[1])), f('fadd', f('fmul', x[0], y[1]), f('fmul', x[1], y[0]))
        for c, z in zip(d, v):
            if c.k != 'sc':
                raise AnalysisError('a product is stored into %s' % show(c)[:80])
            eng.store(st, aspval(ptr(c, self.lib.voff)), z, 8)
        return True

    def k_exactlyZero(self, eng, st, inst, short, full, args):
        st.env[inst.id] = mk('ez', *self.num(eng, st, args[0]))
        return True

    def k_exactlyOne(self, eng, st, inst, short, full, args):
        st.env[inst.id] = mk('eo', *self.num(eng, st, args[0]))
        return True

    # -- operations
    def k_makeGateDD(self, eng, st, inst, short, full, args):
        a = as_ptr(args[2])
        mat = tuple(eng.load(st, aspval(ptr(a, 8 * k)), 8, 'double') for k in range(8))
        t = mk('gate', *mat, *args[3:])
        self.effect(st, ('gate', t))
        self.put_edge(eng, st, args[0], self.made(t))
        return True

    def k_multiply(self, eng, st, inst, short, full, args):
        t = mk('product', *self.edge(eng, st, args[2]), *self.edge(eng, st, args[3]), *args[4:])
        self.effect(st, ('mul', t))
        self.put_edge(eng, st, args[0], self.made(t))
        return True

    def k_incRef(self, eng, st, inst, short, full, args):
        self.effect(st, ('inc', self.edge(eng, st, args[1])))
        return True

    def k_decRef(self, eng, st, inst, short, full, args):
        self.effect(st, ('dec', self.edge(eng, st, args[1])))
        return True

    def k_garbageCollect(self, eng, st, inst, short, full, args):
        self.effect(st, ('gc',))
        if inst.ty != 'void':
            st.env[inst.id] = eng.fresh(st, inst)
        return True

    # -- the recursion on a successor
    def recursive(self, eng, st, inst, args):
        e = self.edge(eng, st, args[1])
        t = mk('R', *e, *[x for x in args[3:]])
        self.effect(st, ('rec', e, aspval(as_ptr(args[2])), tuple(args[3:]), t))
        st.env[inst.id] = t
        return True

    def header_call(self, eng, st, inst, args):
        self.effect(st, ('probs', aspval(as_ptr(args[0])), self.edge(eng, st, args[1]), args[2], args[3]))
        st.env[inst.id] = mk('agg', mk('p', 0), mk('p', 1))
        return True


def square(r, i, cl, eng, st):
    """squared magnitude of a weight"""
    a, b = (pol(cl.val(eng, st, x)) for x in (r, i))
    return a * a + b * b


def root_sub(t):
    if t.k == 'fn_sqrt':
        p = pol(t.a[0])
        if len(p.m) == 1:
            (k, c), = p.m.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0][0] == 'inv':
                q = P(dict(k[0][0][1]))
                return psqrt(q) * inv(q)
    return None


def pol(t):
    return poly(t, root_sub)


def same(p, q):
    return (p - q).zero()


class Unit:
    def __init__(self, ctx, m, lib, fn, nm, args, rec=None, head=None, alias=False, fixed=None):
        self.ctx, self.lib, self.nm = ctx, lib, nm
        self.cl = MeasureClient(lib, rec, head)
        self.cl.same = alias
        self.cl.fixed = fixed
        self.eng = Engine(m.fn(fn), self.cl, m.statics, args=args)
        self.eng.run()
        ctx.ran(self.eng)
        self.terms = {t for k, t in lib.terms.items() if k == 'dd::vNode'}
        self.voff = lib.voffs['dd::vNode']

    def ob(self, key, ok, msg, tr=()):
        return self.ctx.ob('%s: %s' % (self.nm, key), ok, msg, self.nm, tr)

    def is_term(self, st, p):
        if p in self.terms or p is NULL:
            return True
        got = [self.eng.decide(st, mk('pcmp', 'eq', p, t)) for t in self.terms]
        return True if True in got else False if False in got else None

    def succ(self, st, X, j):
        return tuple(self.eng.load(st, aspval(ptr(as_ptr(X), NE * j + o)), 8, 'ptr') for o in (0, 8, 16))


class Collapse(Unit):
    """measuring one qubit"""

    def check(self):
        eng, cl, root = self.eng, self.cl, mk('arg', 1)
        w0 = tuple(mk('load', ptr(root, o), None) for o in (0, 8, 16))
        self.ctx.require('refusals of ' + self.nm, len(cl.throws), 1)
        for st in cl.throws:
            self.asked(st)
            self.ob('nothing is changed before a refusal', not [e for e in st.c[1] if e[0] in ('inc', 'dec', 'gc', 'st')], 'effects before the refusal', eng.trace(st))
            self.ob('it is refused only if the probabilities do not add up to one', self.unit(st) is False, 'the sum of the probabilities is not known to be off', eng.trace(st))
        self.ctx.require('results of ' + self.nm, len(cl.finals), 2)
        seen = set()
        for st, val in cl.finals:
            tr = eng.trace(st)
            self.asked(st)
            self.ob('probabilities that do not add up to one are refused', self.unit(st) is True, 'it goes on although the sum may be off', tr)
            draws = [e for e in st.c[1] if e[0] == 'draw']
            rng = {e[1]: e[2:] for e in st.c[1] if e[0] == 'range'}
            ok = len(draws) == 1 and draws[0][2] is mk('arg', 4) and rng.get(draws[0][1]) == (cf(0.0), cf(1.0))
            if not self.ob('one random number from 0 to 1 is drawn', ok, 'drawn: %s' % [(show(e[2])[:30],) + tuple(show(x) for x in rng.get(e[1], ())) for e in draws], tr):
                continue
            k = self.outcome(st, draws[0][3])
            if not self.ob('the outcome is 0 exactly if the number is below the share of the probability for 0', k is not None, 'the outcome is not decided by the number and the share of the probability of 0', tr):
                continue
            self.ob('the outcome is reported', val is ci(8, 48 + k), 'for outcome %d the result is %s' % (k, show(val)), tr)
            seen.add(k)
            gates = [e[1] for e in st.c[1] if e[0] == 'gate']
            muls = [e[1] for e in st.c[1] if e[0] == 'mul']
            want = [cf(1.0) if j == 6 * k else cf(0.0) for j in range(8)]
            ok = len(gates) == 1
            if ok:
                g = gates[0]
                n = ladd(ilin(eng.load(st.copy(), aspval(ptr(w0[0], self.voff)), 1, 'i8')), 1)
                ok = list(g.a[:8]) == want and leq(ilin(g.a[8]), n) and g.a[9] is mk('arg', 2) and all(x is ci(64, 0) for x in g.a[10:])
            self.ob('the state is projected on the outcome', ok, 'gates: %s' % [show(g)[:200] for g in gates], tr)
            ok = ok and len(muls) == 1 and muls[0].a[:6] == cl.made(gates[0]) + w0
            self.ob('the projector is applied to the state', ok, 'products: %s' % [show(x)[:200] for x in muls], tr)
            e = cl.edge(eng, st.copy(), root)
            if ok:
                t = muls[0]
                f = psqrt_inv(pol(mk('p', k)))
                good = e[0] is t and all(x.k == 'tn' or x in (self.lib.zero,) for x in e[1:])
                if good:
                    got = [pol(cl.val(eng, st, x)) for x in e[1:]]
                    good = all(same(a, f * pol(mk('val', mk('nw', t, j)))) for j, a in enumerate(got))
                self.ob('the new state is the projected one divided by the root of the probability of the outcome', good, 'the new state is (%s, %s, %s)' % tuple(show(x)[:120] for x in e), tr)
            ref = [x for x in st.c[1] if x[0] in ('inc', 'dec', 'gc')]
            ok = [x[1] for x in ref if x[0] == 'inc'] == [e] and [x[1] for x in ref if x[0] == 'dec'] == [w0] and ('gc',) not in ref[:max(i for i, x in enumerate(ref) if x[0] == 'inc')]
            self.ob('the new state is referenced and the old one released', ok, 'references: %s' % [(x[0], show(x[1][0])[:60]) if len(x) > 1 else x for x in ref], tr)
        self.ob('both outcomes are possible', seen == {0, 1}, 'outcomes: %s' % sorted(seen))

    def asked(self, st):
        a = [e for e in st.c[1] if e[0] == 'probs']
        w0 = tuple(mk('load', ptr(mk('arg', 1), o), None) for o in (0, 8, 16))
        ok = len(a) == 1 and a[0][1:] == (mk('arg', 0), w0, mk('arg', 2), mk('arg', 3))
        self.ob('the probabilities are those of the qubit in the state', ok, 'asked for: %s' % [tuple(show(x)[:60] for x in (e[1],) + e[2] + e[3:]) for e in a], self.eng.trace(st))

    def fcs(self, st):
        for f, v in st.facts.items():
            if f[0] == 'fc' and f[1] in ('olt', 'ole'):
                yield f[1], f[2], f[3], v

    def unit(self, st):
        """is the sum of the probabilities within the tolerance of one?"""
        p = pol(mk('p', 0)) + pol(mk('p', 1)) - C(1)
        dev = poly(mk('fabs', mk('fsub', mk('fadd', mk('p', 0), mk('p', 1)), cf(1.0))), root_sub)
        eps = pol(mk('arg', 5))
        for op, a, b, v in self.fcs(st):
            a, b = pol(a), pol(b)
            if same(a, eps) and same(b, dev) and op == 'olt':
                return not v
            if same(a, dev) and same(b, eps) and op == 'ole':
                return v
        return None

    def outcome(self, st, r):
        """0 or 1, from how the number compares with the share of 0"""
        p, q, x = pol(mk('p', 0)), pol(mk('p', 0)) + pol(mk('p', 1)), pol(r)
        share = p * inv(q)
        for op, a, b, v in self.fcs(st):
            a, b = pol(a), pol(b)
            for l, h in ((x, share), (x * q, p)):
                if op == 'olt' and same(a, l) and same(b, h):
                    return 0 if v else 1
                if op == 'ole' and same(a, h) and same(b, l):
                    return 1 if v else 0
        return None


def psqrt_inv(p):
    return psqrt(p) * inv(p)


def resolve(effs, base):
    """(text it was made from, is it the other way round?)"""
    have = {}
    for x in effs:
        if x[0] == 'fill':
            have[x[1]] = (x[1], 0)
        elif x[0] == 'text':
            o, k = have.get(x[2], (None, 0))
            have[x[1]] = (o, k ^ x[3])
        elif x[0] == 'flip':
            o, k = have.get(x[1], (None, 0))
            have[x[1]] = (o, k ^ 1)
    return have.get(base, (None, 0))


class All(Collapse):
    """measuring all qubits"""

    def check(self):
        eng, cl, root = self.eng, self.cl, mk('arg', 2)
        e = tuple(mk('load', ptr(root, o), None) for o in (0, 8, 16))
        self.e, self.root = e, root
        self.top = top = {mk('levelof', e[0]): 1}, 0
        h1s = [h for h in cl.iters if any(x[0] == 'draw' for it in cl.iters[h] for x in it[1])]
        h2s = [h for h in cl.iters if any(x[0] == 'node' for it in cl.iters[h] for x in it[1])]
        self.ctx.require('loops of %s that draw' % self.nm, len(h1s), 1)
        self.ctx.require('loops of %s that build' % self.nm, len(h2s), 1)
        h1, h2 = h1s[0], h2s[0]
        if not self.ob('one loop draws and one builds', len(h1s) == len(h2s) == 1 and h1 != h2, 'loops: %s %s' % (h1s, h2s)):
            return
        self.cur = self.txt = self.lev = None
        for st in cl.iter_states[h1]:
            self.draw(h1, st)
        if self.cur is None or self.lev is None:
            self.ob('the walk is recognised', False, 'no node is carried along')
            return
        for st in cl.throws:
            self.refused(h1, st)
        for st in cl.entries[h1]:
            v = self.value(h1, st, self.cur)
            self.ob('the walk begins at the root', v is e[0], 'it begins at %s' % (show(v)[:80] if v is not None else '?'), eng.trace(st))
            l = self.value(h1, st, self.lev)
            self.ob('the walk begins on the highest level', l is not None and leq(self.lin(l), top), 'it begins on level %s' % (show(l)[:80] if l is not None else '?'), eng.trace(st))
            fill = [x for x in st.c[1] if x[0] == 'fill']
            ok = len(fill) == 1 and leq(self.lin(fill[0][2]), ladd(top, 1)) and fill[0][3] is ci(8, 48)
            if self.ob('the text has a 0 for every qubit to begin with', ok, 'texts: %s' % [(show(x[2])[:60], show(x[3])) for x in fill], eng.trace(st)):
                self.txt = fill[0][1]
        for st in cl.iter_states[h1]:
            self.noted(h1, st)
        self.node = None
        for st in cl.iter_states[h2]:
            self.built(h2, st)
        self.results(h1, h2)

    def lin(self, t):
        """levels do not change"""
        p, c = ilin(t)
        out = {}
        for x, n in p.items():
            if x.k == 'load' and poff(x.a[0]) == self.voff:
                b = pbase(x.a[0])
                x = mk('levelof', self.e[0] if b.k == 'load' and as_ptr(b.a[0]) is ptr(self.root) else b)
            out[x] = out.get(x, 0) + n
        return out, c

    def value(self, h, st, x):
        if x.k == 'load' and x.a[1] == ('loop', h):
            return self.eng.load(st.copy(), aspval(as_ptr(x.a[0])), 8, 'ptr')
        if x.k == 'phi' and x.a[0] == h:
            return st.env.get(x.a[1])
        return None

    def parts(self, st):
        """the node whose successors' weights are compared with one"""
        out = []
        for op, a, b, v in self.fcs(st):
            for x in leaves(a) | leaves(b) if isinstance(leaves(a), set) else set(leaves(a)) | set(leaves(b)):
                if x.k == 'load' and poff(x.a[0]) in (8, 16, 32, 40):
                    X = pbase(x.a[0])
                    if X is not self.root and X not in out:
                        out.append(X)
        return out

    def bounds(self, st, X):
        s = st.copy()
        m = [square(*self.succ(s, X, j)[1:], self.cl, self.eng, s) for j in (0, 1)]
        return m[0], m[1]

    def judge(self, st, X):
        """(probabilities add up to one?, outcome)"""
        p, p1 = self.bounds(st, X)
        q = p + p1
        dev = atom(('abs', (q - C(1)).frozen())) if (q - C(1)).frozen()[0][1] > 0 else atom(('abs', (C(1) - q).frozen()))
        eps = pol(mk('arg', 5))
        unit = out = None
        draws = [x for x in st.c[1] if x[0] == 'draw']
        share = p * inv(q)
        for op, a, b, v in self.fcs(st):
            a, b = pol(a), pol(b)
            if same(a, eps) and same(b, dev) and op == 'olt':
                unit = not v
            if same(a, dev) and same(b, eps) and op == 'ole':
                unit = v
            for d in draws:
                x = pol(d[3])
                for l, h in ((x, share), (x * q, p)):
                    if op == 'olt' and same(a, l) and same(b, h):
                        out = 0 if v else 1
                    if op == 'ole' and same(a, h) and same(b, l):
                        out = 1 if v else 0
        return unit, out

    def draw(self, h, st):
        eng, cl = self.eng, self.cl
        tr = eng.trace(st)
        draws = [x for x in st.c[1] if x[0] == 'draw']
        eff = [y for ev in st.c[0] if ev[0] == 'loop' for y in ev[2]] + list(st.c[1])
        rng = {x[1]: x[2:] for x in eff if x[0] == 'range'}
        ok = len(draws) == 1 and draws[0][2] is mk('arg', 4) and rng.get(draws[0][1]) == (cf(0.0), cf(1.0))
        self.ob('one random number from 0 to 1 is drawn per qubit', ok, 'drawn: %s' % [show(x[2])[:30] for x in draws], tr)
        Xs = [X for X in self.parts(st) if self.value(h, cl.hstates[h][0], X) is not None]
        if not self.ob('the weights below one node decide', len(Xs) == 1, 'nodes: %s' % [show(X)[:80] for X in Xs], tr):
            return
        X = Xs[0]
        if self.cur is not None and X is not self.cur:
            self.ob('the weights below one node decide', False, 'two nodes', tr)
        self.cur = X
        unit, k = self.judge(st, X)
        self.ob('probabilities that do not add up to one are refused', unit is True, 'it goes on although the sum may be off', tr)
        self.ob('the outcome is 0 exactly if the number is below the share of the probability for 0', k is not None, 'the outcome is not decided by the number and the share of the probability of 0', tr)
        if k is None:
            return
        S = self.succ(st.copy(), X, k)
        v = self.value(h, st, X)
        self.ob('the walk goes on with the successor of the outcome', v is S[0], 'for outcome %d it goes on with %s' % (k, show(v)[:80]), tr)
        # the level
        for p in eng.fn.blocks[h].phis:
            x = mk('phi', h, p.id)
            if leq(ilin(st.env[p.id]), ladd(ilin(x), -1)):
                self.lev = x
        self.ob('the walk goes down by one level', self.lev is not None and leq(ilin(st.env[self.lev.a[1]]), ladd(ilin(self.lev), -1)), 'no level is counted down', tr)
        if self.lev is not None:
            self.ob('the walk goes on to the lowest level only', self.above(st) is True, 'the level may be negative', tr)

    def above(self, st):
        """is the level one of a qubit?"""
        r = self.eng.decide(st, mk('icmp', 'slt', self.lev, ci(8, 0), 8))
        return None if r is None else not r

    def noted(self, h, st):
        eng = self.eng
        tr = eng.trace(st)
        unit, k = self.judge(st, self.cur)
        sts = [x for x in st.c[1] if x[0] == 'st']
        v = {mk('levelof', self.cur): 1}, 0
        ok = True
        for x in sts:
            b = pbase(x[1])
            ok = ok and b.k == 'chr' and b.a[0] is self.txt and (leq(ilin(b.a[1]), ilin(self.lev)) or leq(self.lin(b.a[1]), v)) and x[2] is ci(8, 48 + (k or 0))
        self.ob('the outcome is noted for the qubit of the level, nothing else changes', ok and (k == 0 or len(sts) == 1), 'for outcome %s: %s' % (k, [(show(x[1])[:80], show(x[2])[:30]) for x in sts]), tr)

    def refused(self, h, st):
        eng = self.eng
        tr = eng.trace(st)
        ef = [x for ev in st.c[0] if ev[0] == 'loop' for x in ev[2]] + list(st.c[1])
        self.ob('nothing is changed before a refusal', not [x for x in ef if x[0] in ('inc', 'dec', 'gc') or x[0] == 'st' and pbase(x[1]).k != 'chr'], 'effects before the refusal', tr)
        if any(ev[0] == 'loop' and ev[1] == h for ev in st.c[0]):
            self.ob('it is refused only if the probabilities do not add up to one', self.judge(st, self.cur)[0] is False, 'the sum of the probabilities is not known to be off', tr)
        else:
            self.ob('before the walk only a zero state is refused', eng.decide(st, mk('az', self.e[1], self.e[2])) is True, 'the state is not known to be zero', tr)

    def built(self, h, st):
        eng, cl = self.eng, self.cl
        tr = eng.trace(st)
        ns = [x[1] for x in st.c[1] if x[0] == 'node']
        if not self.ob('one node is built per qubit', len(ns) == 1, '%d nodes' % len(ns), tr):
            return
        n = ns[0]
        lv = n.a[0]
        ok = lv.k == 'phi' and lv.a[0] == h and leq(ilin(st.env[lv.a[1]]), ladd(ilin(lv), 1))
        self.ob('nodes are built upwards, one level at a time', ok, 'the level is %s' % show(lv)[:80], tr)
        if not ok:
            return
        self.up = lv
        self.ob('the nodes are built with stored weights', n.a[1] is False, 'scratch numbers are announced', tr)
        # the outcome of the qubit
        k = None
        for a, x in ((48, 0), (49, 1)):
            c = [b for f in st.facts for y in f[1:] if isinstance(y, T) for b in leaves(y) if b.k == 'load' and pbase(b.a[0]).k == 'chr']
            for b in c:
                q = pbase(b.a[0])
                if q.a[0] is self.txt and leq(ilin(q.a[1]), ilin(lv)):
                    d = eng.decide(st, mk('icmp', 'eq', b, ci(8, a), 8))
                    k = k if d is None else x if d else 1 - x
        if not self.ob('the outcome of the qubit of the level decides', k is not None, 'the outcome is not known', tr):
            return
        es = cl.children(n)
        zero = self.is_term(st, es[1 - k][0]) is True and es[1 - k][1:] == (self.lib.zero, self.lib.zero)
        self.ob('the successor of the other outcome is zero', zero, 'it is (%s, %s, %s)' % tuple(show(x)[:50] for x in es[1 - k]), tr)
        old = es[k]
        ok = all(self.value(h, cl.hstates[h][0], x) is not None for x in old)
        self.ob('the successor of the outcome is what was built below', ok, 'it is %s' % show(old[0])[:80], tr)
        if ok:
            self.node = old
            now = tuple(self.value(h, st, x) for x in old)
            self.ob('what was built is carried upwards', now == cl.made(n), 'carried: %s' % show(now[0])[:80], tr)
        self.heap(st)

    def heap(self, st):
        bad = [x for x in st.c[1] if x[0] in ('st', 'inc', 'dec', 'gc')]
        self.ob('building changes nothing else', not bad, 'effects: %s' % [x[0] for x in bad], self.eng.trace(st))

    def results(self, h1, h2):
        eng, cl, e = self.eng, self.cl, self.e
        self.ctx.require('results of ' + self.nm, len(cl.finals), 2)
        if self.node is None:
            return
        for st in cl.entries[h2]:
            tr = eng.trace(st)
            l = self.value(h2, st, self.up)
            self.ob('building begins on the lowest level', l is not None and leq(ilin(l), ({}, 0)), 'it begins on %s' % show(l)[:60], tr)
            b = tuple(self.value(h2, st, x) for x in self.node)
            self.ob('building begins with the number one', self.is_term(st, b[0]) is True and b[1:] == (self.lib.one, self.lib.zero), 'it begins with (%s, %s, %s)' % tuple(show(x)[:40] for x in b), tr)
        kinds = set()
        for st, _ in cl.finals:
            tr = eng.trace(st)
            col = eng.decide(st, mk('icmp', 'ne', mk('arg', 3), ci(1, 0), 1))
            kinds.add(col)
            effs = [x for ev in st.c[0] if ev[0] == 'loop' for x in ev[2]] + list(st.c[1])
            ref = [x for x in effs if x[0] in ('inc', 'dec', 'gc')]
            now = cl.edge(eng, st.copy(), self.root)
            hs = [ev[1] for ev in st.c[0] if ev[0] == 'loop']
            self.ob('all qubits are measured', h1 in hs and (self.above(st) is False), 'the walk may end early', tr)
            if col:
                self.ob('the state is replaced by what was built for all qubits', h2 in hs and now == self.node and self.done(st), 'the state is %s' % show(now[0])[:80], tr)
                inc = [x[1] for x in ref if x[0] == 'inc']
                dec = [x[1] for x in ref if x[0] == 'dec']
                early = [i for i, x in enumerate(ref) if x[0] == 'gc'] and ref.index(next(x for x in ref if x[0] == 'gc')) < max([i for i, x in enumerate(ref) if x[0] == 'inc'] + [-1])
                self.ob('the new state is referenced, before anything is collected, and the old one released', inc == [now] and dec == [e] and not early, 'references: %s' % [(x[0], show(x[1][0])[:60]) if len(x) > 1 else x for x in ref], tr)
            else:
                self.ob('without collapse the state stays as it is', now == e and not ref and h2 not in hs, 'references: %s' % [x[0] for x in ref], tr)
            o, k = resolve(effs, mk('arg', 0))
            self.ob('the outcomes are given from the highest qubit down', o is self.txt and k == 1, 'the text is %s' % ('given from the lowest up' if o is self.txt else 'another one'), tr)
        self.ob('with and without collapse', kinds == {True, False}, 'handled: %s' % sorted(map(str, kinds)))

    def done(self, st):
        n = ladd(self.top, 1)
        for f, v in st.facts.items():
            if f[0] == 'lt' and not v and leq(ilin(f[2]), ilin(self.up)) and leq(self.lin(f[3]), n):
                return True
            if f[0] == 'lt' and v and leq(ilin(f[3]), ilin(self.up)) and leq(self.lin(f[2]), self.top):
                return True
        return False


class Below(Unit):
    """the total below a node"""

    def check(self):
        eng, cl = self.eng, self.cl
        edge, tab = mk('arg', 1), mk('arg', 2)
        e = tuple(mk('load', ptr(edge, o), None) for o in (0, 8, 16))
        p = cl.pair(tab, e[0])
        self.ctx.require('results of ' + self.nm, len(cl.finals), 3)
        kinds = set()
        for st, val in cl.finals:
            tr = eng.trace(st)
            s = st.copy()
            m2 = square(e[1], e[2], cl, eng, s)
            ent = [x for x in st.c[1] if x[0] == 'entered']
            recs = [x for x in st.c[1] if x[0] == 'rec']
            new = [x for x in ent if x[1] is p]
            if not new:
                ok = eng.decide(st, mk('found', p)) is True and not recs and not ent
                self.ob('a total is computed and remembered for every node that has none', ok, 'the total of a node that may not have one is not remembered', tr)
                total = eng.load(s, aspval(ptr(p, 8)), 8, 'double')
                self.ob('the result is the squared magnitude of the weight times the total', same(pol(val), m2 * pol(total)), 'the result is %s' % show(val)[:200], tr)
                kinds.add('old')
                continue
            total = eng.load(s, aspval(ptr(p, 8)), 8, 'double')
            self.ob('only the node itself is entered', all(x[1] is p for x in ent), 'entered: %s' % [show(x[1])[:80] for x in ent], tr)
            term = self.is_term(st, e[0])
            want = C(1) if term else C(0)
            ok = term is not None
            if term is False:
                kinds.add('node')
                for j in (0, 1):
                    w = self.succ(s, e[0], j)
                    mine = [x for x in recs if x[1] == w]
                    if not mine:
                        ok = ok and eng.decide(st, mk('az', w[1], w[2])) is True
                        continue
                    ok = ok and mine[0][2] is tab
                    want = want + pol(mine[0][4])
            else:
                kinds.add('terminal')
                ok = ok and not recs
            self.ob('the total of a node is the sum of what its successors give, of a terminal one', ok and same(pol(total), want), 'the total is %s' % show(total)[:200], tr)
            self.ob('the result is the squared magnitude of the weight times the total', same(pol(val), m2 * pol(total)), 'the result is %s' % show(val)[:200], tr)
        self.ob('all kinds of nodes are handled', kinds == {'old', 'node', 'terminal'}, 'handled: %s' % sorted(kinds))


class Overlap(Unit):
    """the fidelity with given outcomes"""

    def check(self):
        eng, cl = self.eng, self.cl
        edge, tab, idx = mk('arg', 1), mk('arg', 2), mk('arg', 3)
        e = tuple(mk('load', ptr(edge, o), None) for o in (0, 8, 16))
        self.ctx.require('results of ' + self.nm, len(cl.finals), 3)
        kinds = set()
        for st, val in cl.finals:
            tr = eng.trace(st)
            s = st.copy()
            top = psqrt(square(e[1], e[2], cl, eng, s))
            recs = [x for x in st.c[1] if x[0] == 'rec']
            term = self.is_term(st, e[0])
            if term is True:
                p = cl.pair(tab, idx)
                f = eng.decide(st, mk('found', p))
                kinds.add(('terminal', f))
                want = C(0)
                if f is not False:
                    want = top * pol(mk('fn_sqrt', eng.load(s, aspval(ptr(p, 8)), 8, 'double')))
                self.ob('an outcome counts the magnitude times the root of its probability, nothing if it has none', f is not None and not recs and same(pol(val), want), 'the result is %s' % show(val)[:200], tr)
                continue
            want, ok = C(0), term is False
            v = eng.load(s, aspval(ptr(e[0], self.voff)), 1, 'i8')
            left = list(recs)
            for j in (0, 1):
                w = self.succ(s, e[0], j)
                az = eng.decide(st, mk('az', w[1], w[2]))
                mine = [x for x in left if x[1] == w]
                kinds.add((j, bool(mine)))
                if not mine:
                    ok = ok and az is True
                    continue
                x = mine[0]
                left.remove(x)
                ok = ok and x[2] is tab and len(x[3]) == 1 and self.index(x[3][0], idx, v, j)
                want = want + pol(x[4])
            self.ob('a node counts the magnitude times what its successors give, with the bit of its level set for the second', ok and not left and same(pol(val), top * want),
                    'the result is %s' % show(val)[:250], tr)
        self.ob('all cases are handled', kinds >= {('terminal', True), ('terminal', False), (0, True), (1, True)}, 'handled: %s' % sorted(map(str, kinds)))

    def index(self, t, idx, v, j):
        if j == 0:
            return t is idx
        def bit(x):
            return x.k == 'ishl' and any(y is ci(64, 1) for y in x.a) and any(isinstance(y, T) and leq(ilin(y), ilin(v)) for y in x.a)
        if t.k == 'ior':
            xs = [y for y in t.a if isinstance(y, T)]
            return len(xs) == 2 and idx in xs and any(bit(y) for y in xs)
        if t.k == 'lin':
            p, c = lin_parts(t, 64)
            return c == 0 and len(p) == 2 and all(k == 1 for k in p.values()) and idx in p and any(bit(y) for y in p)
        return False


class OverlapFront(Unit):
    def check(self):
        eng, cl = self.eng, self.cl
        edge, tab = mk('arg', 1), mk('arg', 2)
        e = tuple(mk('load', ptr(edge, o), None) for o in (0, 8, 16))
        self.ctx.require('results of ' + self.nm, len(cl.finals), 1)
        for st, val in cl.finals:
            recs = [x for x in st.c[1] if x[0] == 'rec']
            az = eng.decide(st, mk('az', e[1], e[2]))
            ok = len(recs) == 1 and recs[0][1] == e and recs[0][2] is tab and recs[0][3] == (ci(64, 0),) and val is recs[0][4] if recs else az is True and val is cf(0.0)
            self.ob('the state is looked at from its root with index 0, nothing for a zero state', ok, 'the result is %s' % show(val)[:100], eng.trace(st))


class Shares(Unit):
    """the shares of the nodes above and on the level of the qubit"""

    def check(self):
        eng, cl = self.eng, self.cl
        root, index = mk('arg', 2), mk('arg', 3)
        e = tuple(mk('load', ptr(root, o), None) for o in (0, 8, 16))
        down = [h for h in cl.iters if any(x[0] == 'push' for it in cl.iters[h] for x in it[1])]
        self.ctx.require('loops of %s that go down' % self.nm, len(down), 1)
        if not self.ob('one loop goes down', len(down) == 1, '%d loops' % len(down)):
            return
        h1 = down[0]
        self.tab = None
        for st in cl.entries[h1]:
            self.start(st, e)
        if self.tab is None:
            return
        for st in cl.iter_states[h1]:
            self.iteration(h1, st, index)
        self.results(h1, e, index)

    def start(self, st, e):
        eng, cl = self.eng, self.cl
        tr = eng.trace(st)
        eff = [x for ev in st.c[0] if ev[0] == 'loop' for x in ev[2]] + list(st.c[1])
        push = [x for x in eff if x[0] == 'push']
        self.ob('it begins with the root alone', [x[2] for x in push] == [e[0]], 'begins with %s' % [show(x[2])[:60] for x in push], tr)
        self.first = {x[1].a[0] for x in eff if x[0] == 'entered' and x[1].a[1] is e[0]}
        st2 = st.copy()
        m2 = square(e[1], e[2], cl, eng, st2)
        tabs = [t for t in self.first if same(pol(eng.load(st2, aspval(ptr(mk('pair', t, e[0]), 8)), 8, 'double')), m2)]
        if self.ob('the share of the root is the squared magnitude of its weight', len(tabs) == 1, 'no share is entered for the root', tr):
            self.tab = tabs[0]
        self.q = push[0][1] if push else None

    def level(self, st, n=0):
        X = self.eng.load(st, mk('front', self.q, n), 8, 'ptr')
        return X, self.eng.load(st, aspval(ptr(X, self.voff)), 1, 'i8')

    def at_level(self, st, index, n=0):
        X, v = self.level(st, n)
        return self.eng.decide(st, mk('icmp', 'eq', v, index, 8))

    def share(self, st, X):
        return pol(self.eng.load(st, aspval(ptr(mk('pair', self.tab, X), 8)), 8, 'double'))

    def iteration(self, h, st, index):
        eng, cl = self.eng, self.cl
        tr = eng.trace(st)
        h0 = cl.hstates[h][0].copy()
        s = st.copy()
        pops = [x for x in st.c[1] if x[0] == 'pop']
        push = [x for x in st.c[1] if x[0] == 'push']
        self.ob('one node is taken at a time, from the queue that is filled', [x[1] for x in pops] == [self.q] and all(x[1] is self.q for x in push), '%d nodes are taken' % len(pops), tr)
        self.ob('it goes down only above the level of the qubit', self.at_level(s, index) is False, 'a node that may be on the level of the qubit is handed on', tr)
        X, v = self.level(s)
        own = self.share(h0, X)
        news = {}
        for j in (0, 1):
            S, r, i = self.succ(s, X, j)
            az = eng.decide(st, mk('az', r, i))
            if not self.ob('it is known whether there is a successor', az is not None, 'successor %d' % j, tr):
                return
            if not az:
                news.setdefault(S, C(0))
                news[S] = news[S] + own * square(r, i, cl, eng, s)
        pushed = [x[2] for x in push]
        for S, c in news.items():
            ent = [(x[1].a[0], x[2]) for x in st.c[1] if x[0] == 'entered' and x[1].a[1] is S]
            facts = {t: next((was for u, was in ent if u is t), None) for t in self.first}
            # known before it is entered, or known without being entered
            for t in self.first:
                if facts[t] is None:
                    d = eng.decide(st, mk('found', mk('pair', t, S)))
                    if not any(u is t for u, w in ent):
                        facts[t] = d
            know = set(facts.values()) - {None}
            if know == {True, False}:
                continue        # not possible: a node is entered into all tables together
            if not self.ob('it is known whether a successor was met before', len(know) == 1, 'successor %s' % show(S)[:100], tr):
                continue
            old = know.pop()
            got, before = self.share(s, S), self.share(h0, S)
            if old:
                self.ob('a successor that was met before gets the share of this node in addition', same(got, before + c), 'its share is %s' % str(got)[:200], tr)
                self.ob('a node is queued once', S not in pushed, 'it is queued again', tr)
            else:
                # an entry that is made by asking for it holds zero
                self.ob('a new successor gets the share of this node times the squared magnitude of its weight', same(got, c) or same(got, before + c), 'its share is %s' % str(got)[:200], tr)
                self.ob('a new successor is queued once', pushed.count(S) == 1, 'it is queued %d times' % pushed.count(S), tr)
                self.ob('a new successor is marked as met', self.first <= {u for u, w in ent}, 'it is not marked', tr)
        self.ob('nothing but successors is queued', all(x in news for x in pushed), 'queued: %s' % [show(x)[:60] for x in pushed], tr)
        self.heap(st)
        sts = [x for x in st.c[1] if x[0] == 'st' and pbase(x[1]).k == 'pair' and pbase(x[1]).a[0] is self.tab]
        self.ob('only the shares of successors change', all(pbase(x[1]).a[1] in news for x in sts), 'another share changes', tr)

    def heap(self, st):
        bad = [x for x in st.c[1] if x[0] == 'st' and pbase(x[1]).k != 'pair' and pbase(x[1]) is not mk('arg', 0)]
        self.ob('nothing but the tables changes', not bad, 'stores: %s' % [show(x[1])[:60] for x in bad], self.eng.trace(st))

    def results(self, h1, e, index):
        eng, cl = self.eng, self.cl
        self.ctx.require('results of ' + self.nm, len(cl.finals), 2)
        modes = set()
        for st, _ in cl.finals:
            tr = eng.trace(st)
            s = st.copy()
            mode = self.mode(s)
            hs = [ev[1] for ev in st.c[0] if ev[0] == 'loop']
            x = [eng.load(s, aspval(ptr(mk('arg', 0), o)), 8, 'double') for o in (0, 8)]
            h2 = [h for h in hs if h != h1]
            if not self.ob('the nodes on the level of the qubit are added up', len(h2) == 1 and mode is not None, 'loops passed: %s' % hs, tr):
                continue
            modes.add(mode)
            self.added(h2[0], st, x, mode, e, index)
        self.ob('both kinds of normalisation are handled', modes == {True, False}, 'handled: %s' % sorted(modes))

    def mode(self, st):
        return self.eng.decide(st, mk('icmp', 'ne', mk('arg', 4), ci(1, 0), 1))

    def added(self, h, fin, x, mode, e, index):
        eng, cl = self.eng, self.cl
        tr = eng.trace(fin)
        self.ob('it ends when no node is left', eng.decide(fin, mk('none', mk('front', self.q, 0))) is True, 'nodes may be left', tr)
        below = None
        other = lambda st: self.mode(st) is (not mode)
        h0 = [st for st in cl.hstates[h] if not other(st)][0]
        for st in cl.entries[h]:
            if other(st):
                continue
            eff = [y for ev in st.c[0] if ev[0] == 'loop' for y in ev[2]] + list(st.c[1])
            s = st.copy()
            self.ob('adding up begins on the level of the qubit', self.at_level(s, index) is True, 'the first node is not known to be on the level of the qubit', eng.trace(st))
            recs = [y for y in eff if y[0] == 'rec']
            if not mode:
                ok = len(recs) == 1 and recs[0][1] == e
                if not self.ob('without normalisation the totals below all nodes of the state are computed', ok, 'totals: %s' % [show(y[1][0])[:60] for y in recs], eng.trace(st)):
                    return
                below = recs[0][2]
            for k in (0, 1):
                v = self.value(h, s, x[k], True)
                self.ob('the probabilities begin with nothing', v is not None and same(pol(v), C(0)), 'probability %d begins with %s' % (k, show(v)[:60] if v is not None else '?'), eng.trace(st))
        for st in cl.iter_states[h]:
            if other(st):
                continue
            tr = eng.trace(st)
            s = st.copy()
            self.heap(st)
            pops = [y for y in st.c[1] if y[0] == 'pop']
            self.ob('nodes on the level are taken one at a time', [y[1] for y in pops] == [self.q] and not [y for y in st.c[1] if y[0] == 'push'], '%d nodes are taken' % len(pops), tr)
            self.ob('it is looked whether a node is left', eng.decide(st, mk('none', mk('front', self.q, 0))) is False, 'the queue may be empty', tr)
            X, v = self.level(s)
            for k in (0, 1):
                S, r, i = self.succ(s, X, k)
                az = eng.decide(st, mk('az', r, i))
                c = C(0)
                if not az:
                    c = self.share(s, X) * square(r, i, cl, eng, s)
                    if not mode:
                        c = c * pol(eng.load(s, aspval(ptr(mk('pair', below, S), 8)), 8, 'double'))
                v0 = self.value(h, h0.copy(), x[k], None)
                v1 = self.value(h, st, x[k], False)
                ok = v0 is not None and v1 is not None and same(pol(v1), pol(v0) + c)
                self.ob('every node adds its share times the squared magnitude of the weight of the successor%s' % ('' if mode else ' and the total below it'), ok,
                        'probability %d becomes %s' % (k, show(v1)[:250] if v1 is not None else '?'), tr)

    def value(self, h, st, x, entry):
        """x, carried by loop h: at its entry, at the header, at the end of an iteration"""
        eng, cl = self.eng, self.cl
        if x.k == 'load' and x.a[1] == ('loop', h):
            return eng.load(st.copy(), aspval(as_ptr(x.a[0])), 8, 'double')
        if x.k == 'phi' and x.a[0] == h:
            if entry is None:
                return x
            return st.env.get(x.a[1])
        return None


def check(ctx):
    ctx.rule('Measurement walks the state by the shares of its nodes: every path of an arbitrary iteration of the walk (each successor zero or not, met before or not, both successors one node or two), '
             'of the recursion for the totals below the nodes and of the collapse, with sums and products compared as polynomials in the weights.')
    ctx.assume = ['std::map, std::set, std::unordered_map and std::queue behave as documented', 'the qubit is one of the state (which is a precondition); states have nodes on every level',
                  'multiplication, gates, references and numbers as specified by C18, C21, C04, C14']
    m0 = llvmir.Module(ctx.ir())

    def head(root):
        hs = [h for h in m0.heads(root) if m0.dname(h).startswith('dd::')]
        if len(hs) != 1:
            raise AnalysisError('%d recursive functions reached from %s' % (len(hs), root))
        return hs[0], m0.dname(hs[0])
    bf, below = head('e_determineMeasurementProbabilities')
    of, overlap = head('e_fidelityOfMeasurementOutcomes')
    dmp = 'dd::Package::determineMeasurementProbabilities'
    m = ctx.module(['e_determineMeasurementProbabilities', 'e_fidelityOfMeasurementOutcomes'], keep_out(below, overlap))
    lib = denote.Lib(ctx, m)
    A = lambda n: [mk('arg', k) for k in range(n)]
    for alias in (False, True):
        Shares(ctx, m, lib, 'e_determineMeasurementProbabilities', 'determineMeasurementProbabilities', A(5), rec=below, alias=alias, fixed=mk('arg', 2)).check()
    Below(ctx, m, lib, bf, 'assignProbabilities', A(3), rec=below).check()
    Overlap(ctx, m, lib, of, 'fidelityOfMeasurementOutcomes', A(4), rec=overlap).check()
    OverlapFront(ctx, m, lib, 'e_fidelityOfMeasurementOutcomes', 'fidelityOfMeasurementOutcomes (root)', A(3), rec=overlap).check()
    m2 = ctx.module(['e_measureOneCollapsing'], keep_out(dmp))
    lib2 = denote.Lib(ctx, m2)
    full = [f for f in (m2.dname(i.callee) for b in m2.fn('e_measureOneCollapsing').blocks for i in b.insts if i.op == 'call' and i.callee) if f.split('(')[0].endswith('::determineMeasurementProbabilities')]
    if len(set(full)) != 1:
        raise AnalysisError('measureOneCollapsing does not ask for the probabilities')
    Collapse(ctx, m2, lib2, 'e_measureOneCollapsing', 'measureOneCollapsing', A(6), head=full[0]).check()
    m3 = ctx.module(['e_measureAll'], keep_out())
    All(ctx, m3, denote.Lib(ctx, m3), 'e_measureAll', 'measureAll', A(6), fixed=mk('arg', 2)).check()
