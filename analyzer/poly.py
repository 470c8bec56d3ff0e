"""Normal form of floating-point terms as polynomials over the reals.

Two terms that are the same real function of the same atoms (whatever the order of the operations, the
factoring, or the way an angle is written) get the same normal form; rounding is ignored.  Atoms are the
value numbers the analysis cannot look into (loads, opaque calls) and sin/cos of half of an atom.
Doubles are read as the simple rational multiple of 1, sqrt(1/2) or pi they are the nearest double of.
"""
import math
from fractions import Fraction as F
from absint import T, mk, cf

S2 = ('s2',)        # sqrt(1/2)
PI = ('pi',)
C8 = ('cos(pi/8)',)


class NotReal(Exception):
    pass


def key(a):
    return a if isinstance(a, tuple) else (('t', a.n))


class P:
    """polynomial: {monomial: coefficient}, monomial = tuple of (atom, exponent) sorted"""
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v}

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    def __neg__(self):
        return P({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k, v in self.m.items():
            for l, w in o.m.items():
                for mm, c in mono_mul(k, l).m.items():
                    r[mm] = r.get(mm, 0) + c * v * w
        return P(r)

    def scale(self, c):
        return P({k: v * c for k, v in self.m.items()})

    def __eq__(self, o):
        return isinstance(o, P) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def const(self):
        if not self.m:
            return F(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def zero(self):
        return not self.m

    def items(self):
        return sorted(self.m.items(), key=lambda x: repr(x[0]))

    def frozen(self):
        return tuple(sorted(((k, v) for k, v in self.m.items()), key=lambda x: repr(x)))

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for k, v in self.items():
            s = '*'.join((ashow(a) + ('^%d' % e if e != 1 else '')) for a, e in k)
            if not s:
                s = str(v)
            elif v != 1:
                s = ('-' if v == -1 else str(v) + '*') + s
            out.append(s)
        return ' + '.join(out)


def ashow(a):
    if a == S2:
        return 'sqrt(1/2)'
    if a == PI:
        return 'pi'
    if a[0] == 't':
        return repr(_atom.get(a[1]))
    if a[0] in ('sin', 'cos'):
        return '%s(%s/2)' % (a[0], ashow(a[1]))
    if a[0] in ('inv', 'sqrt'):
        return '%s(%s)' % (a[0], P(dict(a[1])))
    return str(a)


_atom = {}


def atom(t):
    if isinstance(t, T):
        _atom[t.n] = t
        t = ('t', t.n)
    return P({((t, 1),): F(1)})


def C(c):
    return P({(): F(c)})


_mm = {}


def mono_mul(k, l):
    if not k:
        return P({l: F(1)})
    if not l:
        return P({k: F(1)})
    r = _mm.get((k, l))
    if r is not None:
        return r
    d = dict(k)
    for a, e in l:
        d[a] = d.get(a, 0) + e
    r = reduce_mono(d)
    _mm[(k, l)] = r
    return r


def reduce_mono(d):
    """apply s2^2 = 1/2, sin^2 = 1 - cos^2, sqrt(p)^2 = p, inv(p)... to one monomial"""
    coef = F(1)
    todo = []
    d = dict(d)
    for a in list(d):
        e = d[a]
        if a == S2 and e >= 2:
            coef *= F(1, 2) ** (e // 2)
            e %= 2
        elif a == C8 and e >= 2:
            todo += [P({(): F(1, 2), ((S2, 1),): F(1, 2)})] * (e // 2)
            e %= 2
        elif a[0] == 'sin' and e >= 2:
            todo += [C(1) - P({((('cos', a[1]), 2),): F(1)})] * (e // 2)
            e %= 2
        elif a[0] == 'sqrt' and e >= 2:
            todo += [P(dict(a[1]))] * (e // 2)
            e %= 2
        if e:
            d[a] = e
        else:
            del d[a]
    r = P({tuple(sorted(d.items(), key=repr)): coef})
    for t in todo:
        r = r * t
    return r


def psqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return C(F(n, d))
        c2 = c * 2
        n, d = math.isqrt(c2.numerator), math.isqrt(c2.denominator)
        if n * n == c2.numerator and d * d == c2.denominator:
            return P({((S2, 1),): F(n, d)})
    return atom(('sqrt', p.frozen()))


def power(p, n):
    r = C(1)
    for _ in range(n):
        r = r * p
    return r


def num(v):
    """double -> P"""
    if v != v or v in (float('inf'), float('-inf')):
        raise NotReal('not a number')
    if v == 0:
        return C(0)
    for q in (1, 2, 4, 8, 16, 3, 6, 10):
        if abs(v) < 4096 and float(F(round(v * q), q)) == v:
            return C(F(round(v * q), q))
    for base, at in ((math.sqrt(0.5), S2), (math.pi, PI)):
        x = v / base
        for q in (1, 2, 4, 8, 3, 6):
            n = round(x * q)
            if n and abs(n) < 4096 and abs(n / q * base - v) <= 4e-16 * abs(v):
                return P({((at, 1),): F(n, q)})
    c8, s8 = P({((C8, 1),): F(1)}), pi_trig(F(1, 8))[0]
    for base, at in ((math.cos(math.pi / 8), c8), (math.sin(math.pi / 8), s8)):
        if abs(abs(v) - base) <= 4e-16:
            return at if v > 0 else -at
    return C(F(v))


def linear(p):
    """p -> ({atom: coef}, pi coef, rest const) or None"""
    r, q = {}, F(0)
    for k, v in p.m.items():
        if k == ():
            return None
        if len(k) == 1 and k[0][1] == 1 and k[0][0] == PI:
            q = v
        elif len(k) == 1 and k[0][1] == 1:
            r[k[0][0]] = v
        else:
            return None
    return r, q


_SQ = {0: (1, 0, 0, 0)}


def pi_trig(q):
    """(sin, cos) of q*pi for q a multiple of 1/8"""
    n = q * 4
    if (q * 8).denominator != 1:
        return None
    if n.denominator != 1:
        s, c = pi_trig(q - F(1, 8))
        c8 = P({((C8, 1),): F(1)})
        s8 = c8 * P({((S2, 1),): F(2), (): F(-1)})
        return s * c8 + c * s8, c * c8 - s * s8
    n = int(n) % 8
    s = P({((S2, 1),): F(1)})
    tab = [(C(0), C(1)), (s, s), (C(1), C(0)), (s, -s), (C(0), C(-1)), (-s, -s), (C(-1), C(0)), (-s, s)]
    return tab[n]


def trig(p):
    """(sin p, cos p) as polynomials"""
    if p.zero():
        return C(0), C(1)
    l = linear(p)
    if l is not None:
        parts, q = l
        if all((v * 2).denominator == 1 and abs(v * 2) <= 8 for v in parts.values()):
            s, c = C(0), C(1)
            pt = pi_trig(q)
            if pt is not None:
                s, c = pt
                for a, v in parts.items():
                    n = int(v * 2)
                    sa, ca = atom(('sin', a)), atom(('cos', a))
                    if n < 0:
                        sa, n = -sa, -n
                    for _ in range(n):
                        s, c = s * ca + c * sa, c * ca - s * sa
                return s, c
    f = p.frozen()
    lead = f[0][1]
    if lead < 0:
        s, c = trig(-p)
        return -s, c
    return atom(('sin', ('whole', f))), atom(('cos', ('whole', f)))


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return atom(('inv', ()))
        return C(1 / c)
    if len(p.m) == 1:
        (k, v), = p.m.items()
        r = C(1 / v)
        for a, e in k:
            if a == S2:
                r = r * P({((S2, 1),): F(2)})
            elif a[0] == 'inv':
                r = r * power(P(dict(a[1])), e)
            elif a[0] == 'sqrt':
                r = r * power(atom(a) * inv(P(dict(a[1]))), e)
            else:
                r = r * power(atom(('inv', ((((a, 1),), F(1)),))), e)
        return r
    # a sum with denominators: bring it to one denominator and cancel what can be cancelled
    dens = {}
    for k in p.m:
        for a, e in k:
            if a[0] == 'inv':
                dens[a] = max(dens.get(a, 0), e)
    if dens:
        n = P()
        for k, v in p.m.items():
            d = dict(k)
            t = C(v)
            for a, e in dens.items():
                t = t * power(P(dict(a[1])), e - d.pop(a, 0))
            n = n + t * P({tuple(sorted(d.items(), key=repr)): F(1)})
        r = C(1)
        for a, e in dens.items():
            q = P(dict(a[1]))
            while e:
                x = pdiv(n, q)
                if x is None:
                    break
                n, e = x, e - 1
            r = r * power(q, e)
        return r * inv(n)
    f = p.frozen()
    lead = f[0][1]
    return atom(('inv', tuple((k, v / lead) for k, v in f))).scale(1 / lead)


def _ord(k):
    return (sum(e for a, e in k), [(repr(a), e) for a, e in sorted(k, key=lambda x: repr(x[0]))])


def pdiv(n, q):
    """exact quotient of polynomials or None"""
    if not q.m:
        return None
    lq = max(q.m, key=_ord)
    r, steps = P(), 0
    while n.m:
        ln = max(n.m, key=_ord)
        d = dict(ln)
        steps += 1
        for a, e in lq:
            d[a] = d.get(a, 0) - e
        if steps > 300 or any(e < 0 for e in d.values()):
            return None
        t = P({tuple(sorted(((a, e) for a, e in d.items() if e), key=repr)): n.m[ln] / q.m[lq]})
        r = r + t
        n = n - t * q
        if ln in n.m:
            return None
    return r


def poly(t, sub=None, memo=None):
    """value number -> P; sub: {value number: P} or function"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = _poly(t, sub, memo)
    memo[t] = r
    return r


def _poly(t, sub, memo):
    if sub is not None:
        r = sub(t) if callable(sub) else sub.get(t)
        if r is not None:
            return r
    k, a = t.k, t.a
    f = lambda x: poly(x, sub, memo)
    if k == 'f':
        return num(a[0])
    if k == 'fneg':
        return -f(a[0])
    if k == 'fadd':
        return f(a[0]) + f(a[1])
    if k == 'fsub':
        return f(a[0]) - f(a[1])
    if k == 'fmul':
        return f(a[0]) * f(a[1])
    if k == 'fdiv':
        return f(a[0]) * inv(f(a[1]))
    if k == 'fn_sin':
        return trig(f(a[0]))[0]
    if k == 'fn_cos':
        return trig(f(a[0]))[1]
    if k == 'fn_sqrt':
        return psqrt(f(a[0]))
    if k == 'fabs':
        p = f(a[0])
        c = p.const()
        if c is not None:
            return C(abs(c))
        fr = p.frozen()
        if fr[0][1] < 0:
            p = -p
        return atom(('abs', p.frozen()))
    if k in ('fn_pow',) and a[1].k == 'f' and a[1].a[0] in (2.0, 3.0, 1.0):
        return power(f(a[0]), int(a[1].a[0]))
    if k == 'fn_exp':
        p = f(a[0])
        return C(1) if p.zero() else atom(('exp', p.frozen()))
    if k == 'fn_hypot':
        return poly(mk('fn_sqrt', mk('fadd', mk('fmul', a[0], a[0]), mk('fmul', a[1], a[1]))), sub, memo)
    return atom(t)


# ------------------------------------------------------------------------------------------ complex
class Z:
    """pair of polynomials"""
    __slots__ = ('r', 'i')

    def __init__(self, r, i=None):
        self.r = r if isinstance(r, P) else C(r)
        self.i = i if isinstance(i, P) else C(i or 0)

    def __add__(self, o):
        return Z(self.r + o.r, self.i + o.i)

    def __sub__(self, o):
        return Z(self.r - o.r, self.i - o.i)

    def __neg__(self):
        return Z(-self.r, -self.i)

    def __mul__(self, o):
        return Z(self.r * o.r - self.i * o.i, self.r * o.i + self.i * o.r)

    def conj(self):
        return Z(self.r, -self.i)

    def __eq__(self, o):
        return self.r == o.r and self.i == o.i

    def __hash__(self):
        return hash((self.r, self.i))

    def zero(self):
        return self.r.zero() and self.i.zero()

    def __repr__(self):
        return '(%s) + i(%s)' % (self.r, self.i)


def expi(p):
    s, c = trig(p)
    return Z(c, s)
