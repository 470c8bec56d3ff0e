"""C25: complex arithmetic is exact for every aliasing of destination and operands."""
import itertools
from common import *
from absint import *
from loops import *
from poly import *


class ArClient(Client):
    """numbers are never NaN; the cache's pool is opaque (C24)"""
    optimistic = True

    initial = ()

    held = None

    def __init__(self, off=None):
        self.finals = []
        self.off = off

    def implied(self, eng, st, atom):
        if atom[0] == 'fc' and atom[1] == 'ord':
            return True
        if atom[0] == 'fc' and atom[1] in ('ole', 'olt'):
            # the tolerance is small
            for x, y, r in ((atom[2], atom[3], True), (atom[3], atom[2], False)):
                if x.k == 'f' and y.k == 'load' and pbase(y.a[0]).k == 'glob' and (x.a[0] > 0.01 or x.a[0] == 0 and atom[1] == 'ole'):
                    return (x.a[0] == 0) == r if x.a[0] <= 0 else (not r)
        if atom[0] == 'req' and atom[1].k == 'bits':
            # the static numbers are unmarked
            for f, v in st.facts.items():
                if f[0] == 'peq' and v and atom[1].a[0] in f[1:] and any(x.k == 'glob' for x in f[1:]):
                    return atom[2] == 0
        if atom[0] == 'peq' and atom[1].k == 'arg' and atom[2].k == 'arg' and self.held is not None:
            # two references can only be the same number if the numbers are the same
            x, y = self.held.get(atom[1]), self.held.get(atom[2])
            return False if x is None or x != y else None
        if atom[0] == 'peq':
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                if y.k == 'glob':
                    r = st.facts.get(('r', mk('bits', x, 1)))
                    if r is not None and r[0] == 1:
                        return False
                    # a static value that contradicts a comparison made before
                    c = eng.statics.get(y.a[0], {}).get(self.off)
                    if c is None:
                        continue
                    ld = mk('load', ptr(x, self.off), None)
                    for f, v in st.facts.items():
                        if f[0] == 'fc' and f[1] == 'oeq' and (ld in leaves(f[2]) or ld in leaves(f[3])):
                            p = (poly(f[2], {ld: poly(c)}) - poly(f[3], {ld: poly(c)})).const()
                            if p is not None and (p == 0) != v:
                                return False
                        if f[0] == 'fc' and f[1] == 'ole' and f[2].k == 'fabs' and ld in leaves(f[2]):
                            p = poly(f[2], {ld: poly(c)}).const()
                            if p is not None and (p < F(1, 10 ** 9)) != v:
                                return False
        return None

    def on_load(self, eng, st, inst, addr, val, size):
        a = as_ptr(addr)
        if val.k == 'load' and a.a[1] == self.off:
            for f, v in st.facts.items():
                if f[0] == 'peq' and v and a.a[0] in f[1:]:
                    o = f[2] if f[1] is a.a[0] else f[1]
                    if o.k == 'glob' and o.a[0] in eng.statics:
                        return eng.statics[o.a[0]].get(self.off)
        return None

    def call(self, eng, st, inst, short, full, args):
        if short in ('dd::ComplexCache::getCachedComplex', 'dd::ComplexCache::getTemporaryComplex'):
            kind = short.split('::')[-1]
            r, i = mk('heapobj', kind + '.r', inst.id), mk('heapobj', kind + '.i', inst.id)
            st.env[inst.id] = mk('agg', r, i)
            st.c = st.c + ((kind, r, i),)
            return True
        if short == 'dd::ComplexCache::returnToCache':
            st.c = st.c + (('return',),)
            return True
        return None

    def ret(self, eng, st, inst, val):
        self.finals.append((st.copy(), val, eng.trace(st)))


CUT = lambda s, d: s in ('dd::ComplexCache::getCachedComplex', 'dd::ComplexCache::getTemporaryComplex', 'dd::ComplexCache::returnToCache')


class View:
    """values of number entries on one path, in terms of the memory at entry"""

    def __init__(self, m, off, tol):
        self.m, self.off, self.tol = m, off, tol

    def val(self, st, p):
        """value of the (possibly marked) entry pointer p at entry of the function"""
        for (k, a, b), v in [(f, v) for f, v in st.facts.items() if f[0] == 'peq']:
            if v and p in (a, b):
                o = a if p is b else b
                if o.k == 'glob' and o.a[0] in self.m.statics:
                    c = self.m.statics[o.a[0]].get(self.off)
                    if c is not None:
                        return poly(c)
        x, bits = tag_bits(p)
        if bits[0] in 'kf':
            r = st.facts.get(('r', mk('bits', aspval(x), 1)))
            if r is None or r[0] != r[1]:
                return atom(mk('signed', p))
            neg = (r[0] == 1) != (bits[0] == 'f')
            al = aspval(x) if r[0] == 0 else tag_ptr(x, '0kk')
        else:
            neg = bits[0] == '1'
            al = tag_ptr(x, '0' + bits[1:])
        v = poly(mk('load', ptr(al, self.off), None))
        return -v if neg else v

    def poly(self, st, t):
        """polynomial of a computed value, entries known to be static replaced by their value"""
        known = {}
        for f, v in st.facts.items():
            if f[0] == 'peq' and v:
                for p, o in ((f[1], f[2]), (f[2], f[1])):
                    if o.k == 'glob' and o.a[0] in self.m.statics and self.m.statics[o.a[0]].get(self.off) is not None:
                        known[mk('load', ptr(p, self.off), None)] = poly(self.m.statics[o.a[0]][self.off])
        return poly(t, known)

    def near(self, eng, st, x, y, pols):
        """is |x - y| <= tolerance known (None: unknown)"""
        d = x - y
        c = d.const()
        if c is not None:
            return abs(c) < F(1, 10 ** 9)
        fr = d.frozen()
        if fr[0][1] < 0:
            d = -d
        ab = atom(('abs', d.frozen()))
        for f, v in st.facts.items():
            if f[0] != 'fc':
                continue
            _, pred, a, b = f
            if pred == 'oeq' and v is True:
                if poly(a) - poly(b) in (d, -d):
                    return True
            if pred == 'ole' and b is self.tol and poly(a) == ab:
                return v
            if pred == 'olt' and a is self.tol and poly(b) == ab:
                return not v
        return None


def find_tol(m, finals):
    t = set()
    for st, val, tr in finals:
        for f in list(st.facts) + [(0, val)]:
            for y in f[1:]:
                if isinstance(y, T):
                    t |= {x for x in leaves(y) if x.k == 'load' and pbase(x.a[0]).k == 'glob' and m.dname(pbase(x.a[0]).a[0]).endswith('TOLERANCE')}
    return t


def mark(p, s):
    return aspval(ptr(p, 1)) if s else p


def setups(dst, binary=True):
    dr, di = dst
    own = lambda n: (mk('num', n + '.r'), mk('num', n + '.i'))
    signs = [(0, 0), (1, 1), (0, 1), (1, 0)]
    dv = [('dest%s%s' % ('-' if x else '', '*' if y else ''), (mark(dr, x), mark(di, y))) for x, y in signs]
    out = [('distinct', own('a'), own('b'))]
    out += [('first=' + n, v, own('b')) for n, v in dv]
    out += [('second=' + n, own('a'), v) for n, v in dv]
    out += [('both=%s,%s' % (n, n2), v, v2) for (n, v), (n2, v2) in itertools.product(dv, dv)]
    out += [('operands equal', own('a'), own('a'))]
    a = own('a')
    out += [('operands share a component', a, (a[1], mk('num', 'b.i'))), ('parts equal', (a[0], a[0]), own('b'))]
    return out


def check(ctx):
    ctx.rule('On every path of every arithmetic kernel, for every sharing of components between destination and operands, the value stored '
             'is the same polynomial in the operands\' values at entry as the definition, except for shortcuts under a tolerance test known to have '
             'succeeded on that path; nothing else is written.')
    ctx.assume.append('Equality over the reals (rounding ignored), no NaN, a tolerance below 0.01; the destination is a scratch number with unmarked component pointers.')
    di = ctx.di()
    off = di.layout('Entry')['value']
    names = ['n_add', 'n_sub', 'n_mul', 'n_div']
    cached = ['n_addCached', 'n_subCached', 'n_mulCached', 'n_divCached']
    alloc = ['n_getTemporary_rf', 'n_getTemporary_cv', 'n_getCached_rf', 'n_getCached_cv', 'n_getCached_std', 'n_getCached', 'n_getTemporary']
    scal = ['n_mag2', 'n_mag', 'n_arg', 't_val']
    preds = ['x_exactlyZero', 'x_exactlyOne', 'x_approxZero', 'x_approxOne', 'x_approxEquals', 'x_eq', 'x_ne',
             'cv_approxEquals', 'cv_approxZero', 'cv_approxOne', 'cv_eq', 'cv_add', 't_approxEq_f', 't_approxEq_e', 't_approxZero_e', 't_approxOne_e']
    m = ctx.module(names + cached + alloc + scal + preds + ['n_conj', 'n_neg'], CUT)
    # the tolerance
    cl = ArClient(off)
    Engine(m.fn('t_approxEq_f'), cl, m.statics).run()
    tols = find_tol(m, cl.finals)
    if not ctx.ob('one tolerance', len(tols) == 1, 'approximate comparison does not use one tolerance', 'ComplexTable::Entry::approximatelyEquals'):
        return
    V = View(m, off, tols.pop())

    def run(name, args, mem):
        cl = ArClient(off)
        cl.held = {k[0]: (v, mem.get((k[0], 8))) for k, v in mem.items() if k[1] == 0}
        eng = Engine(m.fn(name), cl, m.statics, args=args, mem={k: (8, v) for k, v in mem.items()})
        eng.run()
        ctx.ran(eng)
        ctx.require('results of ' + name, len(cl.finals), 1)
        return eng, cl

    for name in names + cached:
        op = name[2:5]
        inplace = name in names
        R, A, B = mk('arg', 0), mk('arg', 1), mk('arg', 2)
        if inplace:
            args = [R, A, B]
            dst = (mk('heapobj', 'dest.r'), mk('heapobj', 'dest.i'))
            cases = setups(dst)
        else:
            args = [R, mk('arg', 9), A, B]
            cases = [('distinct', (mk('num', 'a.r'), mk('num', 'a.i')), (mk('num', 'b.r'), mk('num', 'b.i'))),
                     ('operands equal', (mk('num', 'a.r'), mk('num', 'a.i')), (mk('num', 'a.r'), mk('num', 'a.i')))]
        for cname, a, b in cases:
            mem = {(A, 0): a[0], (A, 8): a[1], (B, 0): b[0], (B, 8): b[1]}
            if inplace:
                mem.update({(R, 0): dst[0], (R, 8): dst[1]})
            eng, cl = run(name, args, mem)
            n = 0
            loc = 'ComplexNumbers::%s' % name[2:]
            for st, val, tr in cl.finals:
                n += 1
                if not inplace:
                    took = [c for c in st.c if c[0] == 'getCachedComplex']
                    res = (eng.load(st, R, 8, 'ptr'), eng.load(st, ptr(R, 8), 8, 'ptr'))
                    if not ctx.ob('%s: answers the one scratch number it takes' % name[2:], len(st.c) == 1 and len(took) == 1 and res == took[0][1:],
                                  'takes %s and answers %s' % (st.c, res), loc, tr):
                        continue
                    dst = res
                got = Z(V.poly(st, eng.load(st, ptr(dst[0], off), 8, 'double')), V.poly(st, eng.load(st, ptr(dst[1], off), 8, 'double')))
                va, vb = [Z(V.val(st, p[0]), V.val(st, p[1])) for p in (a, b)]
                one, zero = C(1), C(0)

                def known(x, y):
                    if x is va and y is vb:
                        return all(p is q or eng.decide(st, mk('pcmp', 'eq', p, q)) is True or V.near(eng, st, v, w, m) is True
                                   for p, q, v, w in ((a[0], b[0], va.r, vb.r), (a[1], b[1], va.i, vb.i)))
                    return V.near(eng, st, x.r, y.r, m) is True and V.near(eng, st, x.i, y.i, m) is True
                ok = False
                want = None
                try:
                    if op == 'add':
                        want = va + vb
                    elif op == 'sub':
                        want = va - vb
                    elif op == 'mul':
                        want = va * vb
                    else:
                        want = va * vb.conj()
                        iv = inv(vb.r * vb.r + vb.i * vb.i)
                        want = Z(want.r * iv, want.i * iv)
                    ok = got == want
                except NotReal:
                    ok = True       # division by a number known to be zero
                if not ok and op == 'mul':
                    ok = known(va, Z(1)) and got == vb or known(vb, Z(1)) and got == va or (known(va, Z(0)) or known(vb, Z(0))) and got == Z(0)
                if not ok and op == 'div':
                    ok = known(va, vb) and got == Z(1) or known(vb, Z(1)) and got == va or known(va, Z(0)) and got == Z(0) and not known(vb, Z(0))
                ctx.ob('%s: exact result, %s' % (name[2:], cname.split('=')[0]), ok,
                       'with %s the result is %s instead of %s' % (cname, got, want), loc, tr)
                wr = [(k, c) for k, c in st.mem.items() if k[0].k != 'alloca' and not (k in mem and c[1] is mem[k])]
                bad = [k for k, c in wr if not (k[0] in dst and k[1] == off) and not (k[0] is R and not inplace)]
                ctx.ob('%s: only the destination changes' % name[2:], not bad, 'writes %s' % bad, loc, tr)
    # new scratch numbers hold what was asked
    for name in alloc:
        R = mk('arg', 0)
        eng, cl = run(name, None, {})
        kind = 'getTemporaryComplex' if 'Temp' in name else 'getCachedComplex'
        loc = 'ComplexNumbers::' + name[2:].split('_')[0]
        for st, val, tr in cl.finals:
            res = (eng.load(st, R, 8, 'ptr'), eng.load(st, ptr(R, 8), 8, 'ptr'))
            ok = len(st.c) == 1 and st.c[0][0] == kind and res == st.c[0][1:]
            ctx.ob('%s: takes one scratch number' % name[2:], ok, 'takes %s and answers %s' % (st.c, res), loc, tr)
            if ok and '_' in name[2:]:
                got = [eng.load(st, ptr(x, off), 8, 'double') for x in res]
                if name.endswith('_rf'):
                    want = [mk('arg', 2), mk('arg', 3)]
                    want2 = [mk('load', ptr(x), None) for x in want]
                else:
                    want = want2 = [mk('load', ptr(mk('arg', 2)), None), mk('load', ptr(mk('arg', 2), 8), None)]
                ctx.ob('%s: holds the value asked for' % name[2:], got == want or got == want2, 'holds %s' % got, loc, tr)
    # scalars
    A = mk('arg', 0)
    a = (mk('num', 'a.r'), mk('num', 'a.i'))
    for name in scal:
        if name == 't_val':
            eng, cl = run(name, [a[0]], {})
        else:
            eng, cl = run(name, [A], {(A, 0): a[0], (A, 8): a[1]})
        for st, val, tr in cl.finals:
            v = Z(V.val(st, a[0]), V.val(st, a[1]))
            if name == 't_val':
                ok, want = poly(val) == v.r, v.r
            elif name == 'n_mag2':
                want = v.r * v.r + v.i * v.i
                ok = poly(val) == want
            elif name == 'n_mag':
                want = atom(('sqrt', (v.r * v.r + v.i * v.i).frozen()))
                ok = poly(val) == want
            else:
                want = 'atan2(%s, %s)' % (v.i, v.r)
                ok = val.k == 'fn_atan2' and poly(val.a[0]) == v.i and poly(val.a[1]) == v.r
            ctx.ob('%s: exact result' % name[2:], ok, 'answers %s instead of %s' % (val, want), 'ComplexNumbers::' + name[2:], tr)
            ctx.ob('%s: changes nothing' % name[2:], not [k for k in st.mem if k[0].k != 'alloca' and k[0] is not A], 'writes memory', name, tr)
    # conjugate and negative
    zero = [n for n in m.statics if m.dname(n).startswith('dd::ComplexTable') and m.dname(n).endswith('::zero')]
    ctx.require('static zero', len(zero), 1)
    zp = mk('glob', zero[0])
    R, A = mk('arg', 0), mk('arg', 1)
    for name in ('n_conj', 'n_neg'):
        eng, cl = run(name, [R, A], {(A, 0): a[0], (A, 8): a[1]})
        for st, val, tr in cl.finals:
            res = (eng.load(st, R, 8, 'ptr'), eng.load(st, ptr(R, 8), 8, 'ptr'))
            for part, p, q in (('real', a[0], res[0]), ('imaginary', a[1], res[1])):
                flip = name == 'n_neg' or part == 'imaginary'
                isz = eng.decide(st, mk('pcmp', 'eq', p, zp))
                if not flip:
                    ok = q is p
                    what = 'is not kept'
                elif isz is True:
                    ok = q is p or q is zp
                    what = 'is 0 and gets marked negative'
                else:
                    x, bits = tag_bits(q)
                    neg0 = st.facts.get(('r', mk('bits', p, 1)))
                    ok = aspval(x) is p and bits == 'fkk' and isz is False
                    if not ok and isz is False and neg0 is not None and neg0[0] == neg0[1]:
                        ok = aspval(x) is p and bits == ('1kk' if neg0[0] == 0 else '0kk')
                    what = 'becomes %s' % show(q)
                ctx.ob('%s: %s part' % (name[2:], part), ok, 'the %s part %s' % (part, what), 'ComplexNumbers::' + name[2:], tr)
    # predicates
    A, B = mk('arg', 0), mk('arg', 1)
    b = (mk('num', 'b.r'), mk('num', 'b.i'))
    onep = mk('glob', [n for n in m.statics if m.dname(n).startswith('dd::ComplexTable') and m.dname(n).endswith('::one')][0])

    def parts(eng, st, name):
        """what the path knows about the parts of the predicate: True / False / None each"""
        def peq(p, q):
            return eng.decide(st, mk('pcmp', 'eq', p, q))

        def near(p, q, y=None):
            if peq(p, q) is True:
                return True
            return V.near(eng, st, V.val(st, p), V.val(st, q) if y is None else y, m)
        one = 'One' in name
        if name.startswith('cv_'):
            x = [poly(mk('load', ptr(A, o), None)) for o in (0, 8)]
            y = [poly(mk('load', ptr(B, o), None)) for o in (0, 8)]
            if name == 'cv_eq':
                return [exact(st, p, q) for p, q in zip(x, y)]
            if name == 'cv_approxEquals':
                return [V.near(eng, st, p, q, m) for p, q in zip(x, y)]
            return [V.near(eng, st, x[0], C(1 if one else 0), m), V.near(eng, st, x[1], C(0), m)]
        if name in ('x_eq', 'x_ne'):
            return [peq(p, q) for p, q in zip(a, b)]
        if name.startswith('x_exactly'):
            return [peq(a[0], onep if one else zp), peq(a[1], zp)]
        if name in ('x_approxZero', 'x_approxOne'):
            return [near(a[0], onep if one else zp, C(1 if one else 0)), near(a[1], zp, C(0))]
        if name == 'x_approxEquals':
            return [near(p, q) for p, q in zip(a, b)]
        if name == 't_approxEq_f':
            return [V.near(eng, st, poly(A), poly(B), m)]
        if name == 't_approxEq_e':
            return [near(a[0], b[0])]
        return [near(a[0], onep if one else zp, C(1 if one else 0))]

    for name in preds:
        if name == 'cv_add':
            R, X, Y = mk('arg', 0), mk('arg', 1), mk('arg', 2)
            eng, cl = run(name, None, {})
            for st, val, tr in cl.finals:
                for o in (0, 8):
                    got = poly(eng.load(st, ptr(R, o), 8, 'double'))
                    want = poly(mk('load', ptr(X, o), None)) + poly(mk('load', ptr(Y, o), None))
                    ctx.ob('ComplexValue sum', got == want, 'the sum is %s' % got, 'ComplexValue::operator+', tr)
            continue
        if name.startswith('cv_') or name == 't_approxEq_f':
            eng, cl = run(name, None, {})
        elif name.startswith('x_'):
            eng, cl = run(name, None, {(A, 0): a[0], (A, 8): a[1], (B, 0): b[0], (B, 8): b[1]})
        else:
            eng, cl = run(name, [a[0], b[0]][:2 if 'Eq' in name else 1], {})
        for st, val, tr in cl.finals:
            for s2, t in eng.split(st.copy(), val):
                ps = parts(eng, s2, name)
                want = False if False in ps else (True if all(p is True for p in ps) else None)
                if name == 'x_ne' and want is not None:
                    want = not want
                ctx.ob('%s answers exactly' % name.split('_', 1)[1], want is not None and bool(t) == want,
                       'answers %s where the parts are known to be %s' % (bool(t), ps), name, tr)


def exact(st, x, y):
    d = x - y
    for f, v in st.facts.items():
        if f[0] == 'fc' and f[1] == 'oeq' and poly(f[2]) - poly(f[3]) in (d, -d):
            return v
    return None

