"""Integer terms as rational linear forms, and what the facts of a path say about them."""
from fractions import Fraction as F
from absint import *


def rlin(t, known=None):
    """value of an integer term as a rational linear form over its atoms: widths ignored, divisions exact
    (byte distances of arrays are multiples of their elements)"""
    if known is not None:
        r = known(t)
        if r is not None:
            return dict(r)
    k, a = t.k, t.a
    if k == 'i':
        return {1: F(a[1])} if a[1] else {}
    if k in ('trunc', 'sext', 'zext'):
        return rlin([x for x in a if isinstance(x, T)][-1], known)
    if k == 'lin':
        out = {1: F(wrap(a[2], a[0]))} if a[2] else {}
        for x, n in a[1]:
            for y, c in rlin(x, known).items():
                out[y] = out.get(y, 0) + c * wrap(n, a[0])
        return {x: c for x, c in out.items() if c}
    if k in ('isdiv', 'iudiv') and a[2].k == 'i' and a[2].a[1]:
        r = rlin(a[1], known)
        if all(x == 1 or x.k == 'ptrtoint' for x in r):
            return {x: c / a[2].a[1] for x, c in r.items()}
    if k in ('iashr', 'ilshr') and a[2].k == 'i':
        r = rlin(a[1], known)
        if all(x == 1 or x.k == 'ptrtoint' for x in r):
            return {x: c / (1 << a[2].a[1]) for x, c in r.items()}
    if k == 'ishl' and a[2].k == 'i':
        return {x: c * (1 << a[2].a[1]) for x, c in rlin(a[1], known).items()}
    return {t: F(1)}


def sub(a, b):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) - c
    return {x: c for x, c in out.items() if c}


def bounds(st, known=None):
    """what the facts say: linear forms that are at most zero / are zero / are not zero"""
    le, eq, ne = [], [], []
    for f, v in st.facts.items():
        if f[0] == 'lt':
            a, b = rlin(f[2], known), rlin(f[3], known)
            le.append(sub(sub(a, b), {1: F(-1)}) if v else sub(b, a))
        elif f[0] == 'r':
            x = rlin(f[1], known)
            lo, hi = (v[0], v[1])
            if v[0] == -(1 << 63) and v[2] > 0:
                # only bounded as an unsigned number
                lo, hi = v[2], max(v[1], v[3])
            if hi < 1 << 62:
                le.append(sub(x, {1: F(hi)}))
            if lo > -(1 << 62):
                le.append(sub({1: F(lo)}, x))
            if lo == hi:
                eq.append(sub(x, {1: F(lo)}))
            for n in v[4]:
                ne.append(sub(x, {1: F(n)}))
        elif f[0] == 'req' or f[0] == 'eq':
            pass
    return le, eq, ne


def at_most(st, want, known=None):
    """is the linear form `want` known to be at most zero?"""
    want = {x: c for x, c in want.items() if c}
    if set(want) <= {1}:
        return want.get(1, 0) <= 0
    w = {x: c for x, c in want.items() if x != 1}
    for d in bounds(st, known)[0]:
        dd = {x: c for x, c in d.items() if x != 1}
        if set(dd) == set(w):
            k = w[next(iter(w))] / dd[next(iter(w))]
            if k > 0 and all(w[x] == k * dd[x] for x in w) and want.get(1, 0) <= k * d.get(1, 0):
                return True
    return False
