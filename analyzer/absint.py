"""Path-sensitive dataflow (abstract interpretation) over prepared LLVM IR.

Values are hash-consed value numbers (access paths rooted in arguments / globals / call sites, linear
integer forms, opaque operations).  The abstract state of a program point is a *set* of such states
(disjunctive completion, partitioned by the branch facts that are still of interest); states that agree
after dropping dead SSA values are merged, loops whose trip count is not a constant are analysed with
all values they modify forgotten (widened) until the set of states is stable.  Branch conditions are
only compared with facts established earlier on the path (equalities, intervals, already-seen predicates);
there is no solver and nothing is executed.

A check supplies a Client: a finite client state per path plus transfer functions for the calls, stores
and returns that matter for its rule.
"""
import sys
from llvmir import AnalysisError, strip_templates, operands

sys.setrecursionlimit(100000)


# ------------------------------------------------------------------------------------------------- terms
class T:
    __slots__ = ('k', 'a', 'n', '_l')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_tab = {}
_cnt = [0]


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a = k, a
        _cnt[0] += 1
        t.n = _cnt[0]
        t._l = None
        _tab[key] = t
    return t


def wrap(v, w):
    v &= (1 << w) - 1
    if w > 1 and v >> (w - 1):
        v -= 1 << w
    return v


def ci(w, v):
    return mk('i', w, wrap(v, w))


def cf(v):
    return mk('f', v)


NULL = mk('null')
UNDEF = mk('undef')
TRUE = ci(1, 1)
FALSE = ci(1, 0)


def ptr(base, off=0):
    if base.k == 'ptr':
        return mk('ptr', base.a[0], base.a[1] + off)
    return mk('ptr', base, off)


def pbase(t):
    return t.a[0] if t.k == 'ptr' else t


def poff(t):
    return t.a[1] if t.k == 'ptr' else 0


def as_ptr(t):
    return t if t.k == 'ptr' else ptr(t, 0)


def aspval(t):
    """pointer value: ptr(base,0) is written as base"""
    if t.k == 'ptr' and t.a[1] == 0:
        return t.a[0]
    return t


# linear integer terms: ('lin', w, ((atom, coef), ...), const)
def lin_parts(t, w):
    if t.k == 'i':
        return {}, t.a[1]
    if t.k == 'lin':
        return dict(t.a[1]), t.a[2]
    return {t: 1}, 0


def mk_lin(w, parts, c):
    c = wrap(c, w)
    parts = {a: wrap(k, w) for a, k in parts.items() if wrap(k, w) != 0}
    if not parts:
        return ci(w, c)
    if c == 0 and len(parts) == 1:
        a, k = next(iter(parts.items()))
        if k == 1:
            return a
    return mk('lin', w, tuple(sorted(parts.items(), key=lambda x: x[0].n)), c)


def t_add(w, a, b, s=1):
    p, c = lin_parts(a, w)
    q, d = lin_parts(b, w)
    p = dict(p)
    for k, v in q.items():
        p[k] = p.get(k, 0) + s * v
    return mk_lin(w, p, c + s * d)


def t_scale(w, a, k):
    p, c = lin_parts(a, w)
    return mk_lin(w, {x: v * k for x, v in p.items()}, c * k)


def mk_part(v, d, size):
    """bytes d..d+size of the integer v"""
    if v.k == 'zext' and v.a[1] % 8 == 0:
        n = v.a[1] // 8
        if d >= n:
            return ci(size * 8, 0)
        if d == 0 and size == n:
            return v.a[2]
    if v.k == 'i':
        return ci(size * 8, v.a[1] >> (8 * d))
    if v.k == 'lin' and v.a[2] == 0 and len(v.a[1]) == 1:
        x, k = v.a[1][0]
        n = (k.bit_length() - 1) // 8
        if k == 1 << (8 * n) and n:
            return mk_part(x, d - n, size) if d >= n else (ci(size * 8, 0) if d + size <= n else mk('part', v, d, size))
    if v.k == 'ior':
        x, y = mk_part(v.a[1], d, size), mk_part(v.a[2], d, size)
        for p, q in ((x, y), (y, x)):
            if q.k == 'i' and (q.a[1] == 0 or p.k == 'i'):
                return p if q.a[1] == 0 else ci(size * 8, p.a[1] | q.a[1])
    return mk('part', v, d, size)


def width(t, default=None):
    if t.k == 'i':
        return t.a[0]
    if t.k == 'lin':
        return t.a[0]
    if t.k in ('sext', 'zext', 'trunc'):
        return t.a[0]
    return default


def t_cast(op, w, a, wfrom):
    if a.k == 'i':
        v = a.a[1]
        if op == 'zext':
            v &= (1 << wfrom) - 1
        return ci(w, v)
    if op == 'trunc':
        if a.k in ('sext', 'zext'):
            src = a.a[2]
            ws = a.a[1]
            if ws == w:
                return src
            if ws < w:
                return mk(a.k, w, ws, src)
            return t_cast('trunc', w, src, ws)
        if a.k == 'lin':
            r = ci(w, a.a[2])
            for x, k in a.a[1]:
                r = t_add(w, r, t_scale(w, t_cast('trunc', w, x, wfrom), k))
            return r
        return mk('trunc', w, wfrom, a)
    if a.k == 'zext' and op in ('zext', 'sext'):
        return mk('zext', w, a.a[1], a.a[2])
    if a.k == 'sext' and op == 'sext':
        return mk('sext', w, a.a[1], a.a[2])
    return mk(op, w, wfrom, a)


def leaves(t):
    """set of the non-compound terms t is built from"""
    if t._l is not None:
        return t._l
    s = {t}
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            s |= leaves(x)
        elif isinstance(x, tuple):
            st.extend(x)
    t._l = frozenset(s)
    return t._l


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    k, a = t.k, t.a
    if d > 9:
        return '..'
    if k == 'i':
        return str(a[1])
    if k == 'f':
        return repr(a[0])
    if k == 'null':
        return 'null'
    if k == 'undef':
        return '?'
    if k == 'arg':
        return 'arg%s' % a[0]
    if k == 'glob':
        return '@' + a[0]
    if k == 'ptr':
        return '%s+%d' % (show(a[0], d + 1), a[1])
    if k == 'load':
        return '[%s]' % show(a[0], d + 1) + (('#%s' % (a[1],)) if a[1] else '')
    if k == 'lin':
        s = '+'.join(('%d*%s' % (c, show(x, d + 1))) if c != 1 else show(x, d + 1) for x, c in a[1])
        return '(%s%+d)' % (s, a[2]) if a[2] else '(%s)' % s
    return '%s(%s)' % (k, ','.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a))


# pointers whose low bits carry tags: ('tp', x, b0b1b2), each bit k(ept) / f(lipped) / 0 / 1 relative to x
SOLID = ('glob', 'alloca', 'heapobj', 'fn')


def tag_bits(p):
    """pointer term -> (underlying pointer term, 3 bit codes)"""
    b, o = pbase(p), poff(p)
    if b.k in SOLID and o >= 0:
        return ptr(b, o - (o & 7)), ''.join('1' if o >> j & 1 else '0' for j in range(3))
    if b.k == 'tp' and o == 0:
        return b.a[0], b.a[1]
    if b.k == 'tp' and b.a[1] == '000' and 0 <= o < 8:
        return b.a[0], ''.join('1' if o >> j & 1 else '0' for j in range(3))
    return p, 'kkk'


def tag_ptr(x, bits):
    b, o = pbase(x), poff(x)
    if b.k in SOLID and o % 8 == 0:
        bits = bits.replace('k', '0').replace('f', '1')
        return aspval(ptr(b, o + sum(1 << j for j in range(3) if bits[j] == '1')))
    if bits == 'kkk':
        return aspval(x)
    return mk('tp', aspval(x), bits)


def tag_op(s, op, a, b):
    if a.k == 'i':
        a, b = b, a
    if b.k != 'i':
        return None
    c = b.a[1]
    q, off = lin_parts(a, 64)
    if len(q) != 1:
        return None
    at = next(iter(q))
    if at.k != 'ptrtoint' or q[at] != 1:
        return None
    p = ptr(at.a[0], off)
    x, bits = tag_bits(p)
    if op == 'and' and 0 <= c < 8:
        r = ci(64, 0)
        for j in range(3):
            if c >> j & 1:
                k = bits[j]
                if k == '1':
                    r = t_add(64, r, ci(64, 1 << j))
                elif k in 'kf':
                    t = mk('bits', aspval(x), 1 << j)
                    if k == 'f':
                        t = t_add(64, ci(64, 1 << j), t, -1)
                    r = t_add(64, r, t)
        return r
    if op == 'and' and -8 <= c < 0:
        nb = ''.join(bits[j] if c >> j & 1 else '0' for j in range(3))
    elif op == 'or' and 0 <= c < 8:
        nb = ''.join('1' if c >> j & 1 else bits[j] for j in range(3))
    elif op == 'xor' and 0 <= c < 8:
        nb = ''.join({'k': 'f', 'f': 'k', '0': '1', '1': '0'}[bits[j]] if c >> j & 1 else bits[j] for j in range(3))
    else:
        return None
    # bits the path already knows
    out = ''
    for j in range(3):
        r = s.facts.get(('r', mk('bits', aspval(x), 1 << j)))
        if r is not None and r[0] == r[1] and nb[j] in '01':
            known = '1' if r[0] else '0'
            out += 'k' if known == nb[j] else nb[j]
        else:
            out += nb[j]
    t = tag_ptr(x, out)
    return t_add(64, mk('ptrtoint', pbase(t)), ci(64, poff(t)))


def untag(s, r):
    """an address from which its own low bits are taken away is the address with these bits cleared"""
    q, off = lin_parts(r, 64)
    ats = [a for a in q if a.k == 'ptrtoint']
    bs = [a for a in q if a.k == 'bits']
    if len(ats) != 1 or not bs or len(q) != 1 + len(bs) or q[ats[0]] != 1:
        return r
    x, cur = tag_bits(ptr(ats[0].a[0], 0))
    m = 0
    for b in bs:
        if q[b] != -1 or b.a[0] is not aspval(x) or cur[b.a[1].bit_length() - 1] != 'k':
            return r
        m |= b.a[1]
    t = tag_op(s, 'and', ats[0], ci(64, ~m))
    return r if t is None else t_add(64, t, ci(64, off))


# ------------------------------------------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'mem', 'rng', 'ep', 'facts', 'c', 'it', 'path', 'tag')

    def copy(self):
        s = State()
        s.env, s.mem, s.rng, s.ep, s.facts = dict(self.env), dict(self.mem), dict(self.rng), dict(self.ep), dict(self.facts)
        s.c, s.it, s.path, s.tag = self.c, self.it, self.path, self.tag
        return s

    def fork(self):
        return self.copy()


class Client:
    """Default client: no state, unknown calls havoc what they are handed."""
    initial = None
    max_states = 120000
    max_concrete = 70
    optimistic = True       # distinct access paths do not alias
    merge_facts = True

    def readonly(self, eng, short):
        """calls known not to write memory"""
        return False

    def call(self, eng, st, inst, short, full, args):
        return None

    def store(self, eng, st, inst, addr, val, size):
        return None

    def binop(self, eng, st, inst, op, a, b):
        """value of an integer operation (None: the engine's), or the states it splits into"""
        return None

    def on_load(self, eng, st, inst, addr, val, size):
        return None

    def ret(self, eng, st, inst, val):
        return None

    def end(self, eng, st, inst, kind):
        return None

    def backedge(self, eng, st, header):
        return None

    def loop_entry(self, eng, st, header):
        """a widened loop is entered from outside (phis still have their initial values)"""

    def loop_exit(self, eng, st, inst, cond, val, target):
        """a conditional branch that leaves at least one loop is taken"""

    def header(self, eng, st, header, back, k):
        """state at a loop header after widening"""

    def keep_fact(self, eng, st, key, live):
        return True

    def implied(self, eng, st, atom):
        """truth of an atom not decided by the facts (None: unknown)"""
        return None

    def assume(self, eng, st, atom, val):
        """called after an atom has been added to the facts; may return False for an infeasible path"""
        return True

    def prune(self, eng, st, block):
        return True


class Engine:
    def __init__(self, fn, client, statics=None, args=None, mem=None):
        self.fn = fn
        self.cl = client
        self.mod = fn.mod
        self.statics = statics or {}
        self.nstates = 0
        self.nsteps = 0
        self.args = args or [mk('arg', i) for i in range(len(fn.args))]
        self.mem0 = mem or {}
        self._short = {}
        self._loopinfo = {}
        self.covered = set()
        self.calls_seen = set()
        self.debug = False

    # -- names --
    def short(self, n):
        r = self._short.get(n)
        if r is None:
            d = self.mod.dname(n)
            r = (strip_templates(d) if n.startswith('_Z') else n, d)
            self._short[n] = r
        return r

    # -- operands --
    def ev(self, st, o):
        k = o[0]
        if k == 'v':
            v = st.env.get(o[1])
            if v is None:
                return UNDEF
            return v
        if k == 'i':
            return ci(o[1], o[2])
        if k == 'f':
            return cf(o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return mk('glob', o[1])
        if k == 'fn':
            return mk('fn', o[1])
        if k == 'cgep':
            return aspval(ptr(self.ev(st, o[1]), o[2]))
        if k == 'agg' and o[1]:
            return mk('agg', *[self.ev(st, x) for x in o[1]])
        return UNDEF

    # -- memory --
    def epoch(self, st, base):
        e = st.ep.get(base)
        if e is None:
            e = st.ep.get('*')
            if e is not None and base.k in ('alloca',):
                e = None
            if e is not None and base.k == 'glob' and self.is_static(base):
                e = None
        return e

    def is_static(self, base):
        return base.a[0] in self.statics

    def load(self, st, addr, size, ty='?'):
        addr = as_ptr(addr)
        base, off = addr.a
        if base.k == 'glob' and base.a[0] in self.statics:
            v = self.statics[base.a[0]].get(off)
            if v is not None:
                return v
        c = st.mem.get((base, off))
        if c is not None:
            if c[0] == size:
                return c[1]
            v = c[1]
            if size < c[0] and v.k == 'i':
                return t_cast('trunc', size * 8, v, c[0] * 8)
            if size < c[0]:
                return mk_part(v, 0, size)
            return mk('mix', v, size)
        # a cell that covers off
        for d in range(1, 8):
            c = st.mem.get((base, off - d))
            if c is not None and c[0] > d:
                v = c[1]
                if v.k == 'i' and isinstance(v.a[1], int):
                    return ci(size * 8, v.a[1] >> (8 * d))
                return mk_part(v, d, size)
        for (lo, ln, sb, so, ep) in reversed(st.rng.get(base, ())):
            if lo <= off and off + size <= lo + ln:
                if sb is None:   # memset
                    return NULL if ty == 'ptr' else (cf(0.0) if ty == 'double' else ci(size * 8, so))
                if sb.k == 'glob' and sb.a[0] in self.statics:
                    v = self.statics[sb.a[0]].get(so + off - lo)
                    if v is not None:
                        return v
                return mk('load', ptr(sb, so + off - lo), ep)
        return mk('load', ptr(base, off), self.epoch(st, base))

    def store(self, st, addr, val, size):
        addr = as_ptr(addr)
        base, off = addr.a
        m = st.mem
        for d in range(-7, size):
            if d == 0:
                continue
            c = m.get((base, off + d))
            if c is not None and (d > 0 or c[0] > -d):
                if d < 0 and off + size <= off + d + c[0] and c[1].k == 'i':
                    # partial overwrite of a constant cell: split bytes
                    w = c[1].a[1]
                    for j in range(c[0]):
                        m[(base, off + d + j)] = (1, ci(8, w >> (8 * j)))
                    continue
                del m[(base, off + d)]
        if not self.cl.optimistic and base.k != 'alloca':
            for (b, o) in [k for k in m if k[0] is not base and k[0].k != 'alloca' and k[1] < off + size and off < k[1] + m[k][0]]:
                del m[(b, o)]
                st.ep[b] = ('st', addr)
        m[(base, off)] = (size, val)

    def clear_range(self, st, base, lo, ln):
        for k in [k for k in st.mem if k[0] is base and k[1] < lo + ln and lo < k[1] + st.mem[k][0]]:
            del st.mem[k]
        rs = st.rng.get(base)
        if rs:
            new = []
            for (l, n, sb, so, ep) in rs:
                if l >= lo + ln or lo >= l + n:
                    new.append((l, n, sb, so, ep))
                    continue
                if l < lo:
                    new.append((l, lo - l, sb, so, ep))
                if l + n > lo + ln:
                    d = lo + ln - l
                    new.append((lo + ln, l + n - lo - ln, sb, so + d if sb is not None else so, ep))
            st.rng[base] = tuple(new)

    def memcpy(self, st, dst, src, n):
        dst, src = as_ptr(dst), as_ptr(src)
        db, do = dst.a
        sb, so = src.a
        cells = [(k[1] - so, v) for k, v in st.mem.items() if k[0] is sb and k[1] >= so and k[1] + v[0] <= so + n]
        rngs = []
        for (l, m, b, o, ep) in st.rng.get(sb, ()):
            lo, hi = max(l, so), min(l + m, so + n)
            if lo < hi:
                rngs.append((lo - so + do, hi - lo, b, (o + lo - l) if b is not None else o, ep))
        e = self.epoch(st, sb)
        self.clear_range(st, db, do, n)
        st.rng[db] = st.rng.get(db, ()) + ((do, n, sb, so, e),) + tuple(rngs)
        for o, v in cells:
            st.mem[(db, do + o)] = v
        if sb.k == 'glob' and sb.a[0] in self.statics:
            for o, v in self.statics[sb.a[0]].items():
                if so <= o < so + n:
                    pass

    def memset(self, st, dst, byte, n):
        dst = as_ptr(dst)
        db, do = dst.a
        self.clear_range(st, db, do, n)
        b = byte.a[1] & 255 if byte.k == 'i' else 0
        st.rng[db] = st.rng.get(db, ()) + ((do, n, None, int.from_bytes(bytes([b]) * 8, 'little', signed=True), None),)

    def havoc_base(self, st, base, tag):
        for k in [k for k in st.mem if k[0] is base]:
            del st.mem[k]
        st.rng.pop(base, None)
        st.ep[base] = tag

    def havoc_heap(self, st, tag, keep=lambda b: False):
        """forget everything not held in unescaped locals"""
        for k in [k for k in st.mem if k[0].k != 'alloca' and not keep(k[0])]:
            del st.mem[k]
        for b in [b for b in st.rng if b.k != 'alloca' and not keep(b)]:
            del st.rng[b]
        for b in [b for b in st.ep if b != '*' and b.k != 'alloca' and not keep(b)]:
            del st.ep[b]
        st.ep['*'] = tag

    # -- facts --
    def rget(self, st, t, w):
        r = st.facts.get(('r', t))
        if r is None:
            if t.k == 'bits':
                m = t.a[1]
                return (0, m, 0, m, frozenset(range(1, m)))
            if t.k == 'zext':
                lo, hi = 0, (1 << t.a[1]) - 1
                r2 = st.facts.get(('r', t.a[2]))
                if r2:
                    lo, hi = max(lo, r2[2]), min(hi, r2[3])
                return (lo, hi, lo, hi, frozenset())
            if t.k == 'sext':
                lo, hi = -(1 << (t.a[1] - 1)), (1 << (t.a[1] - 1)) - 1
                r2 = st.facts.get(('r', t.a[2]))
                if r2:
                    lo, hi = max(lo, r2[0]), min(hi, r2[1])
                return (lo, hi, 0 if lo < 0 else lo, (1 << w) - 1 if lo < 0 else hi, frozenset())
            return (-(1 << (w - 1)) if w > 1 else 0, (1 << (w - 1)) - 1 if w > 1 else 1, 0, (1 << w) - 1, frozenset())
        return r

    def rset(self, st, t, w, r):
        slo, shi, ulo, uhi, ne = r
        for _ in range(3):
            # cross-derive
            if slo >= 0:
                ulo, uhi = max(ulo, slo), min(uhi, shi)
            if uhi <= (1 << (w - 1)) - 1 and w > 1:
                slo, shi = max(slo, ulo), min(shi, uhi)
            while wrap(slo, w) in ne and slo <= shi:
                slo += 1
            while wrap(shi, w) in ne and slo <= shi:
                shi -= 1
            while wrap(ulo, w) in ne and ulo <= uhi:
                ulo += 1
            while wrap(uhi, w) in ne and ulo <= uhi:
                uhi -= 1
        if slo > shi or ulo > uhi:
            return False
        ne = frozenset(x for x in ne if slo <= x <= shi)
        st.facts[('r', t)] = (slo, shi, ulo, uhi, ne)
        return True

    def norm_cmp(self, pred, a, b, w):
        """-> True/False or (kind, ..., polarity)"""
        swap = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}
        if pred in swap:
            pred, a, b = swap[pred], b, a
        neg = False
        if pred == 'ne':
            pred, neg = 'eq', True
        if pred in ('ule', 'sle'):     # a<=b == !(b<a)
            pred, a, b, neg = pred[0] + 'lt', b, a, not neg
        if a.k == 'i' and b.k == 'i':
            x, y = a.a[1], b.a[1]
            if pred[0] == 'u':
                x &= (1 << w) - 1
                y &= (1 << w) - 1
            r = (x == y) if pred == 'eq' else x < y
            return r != neg
        # strip equal casts
        for _ in range(3):
            for c in ('sext', 'zext'):
                if a.k == c or b.k == c:
                    ws = (a if a.k == c else b).a[1]
                    xa = a.a[2] if a.k == c and a.a[1] == ws else None
                    xb = b.a[2] if b.k == c and b.a[1] == ws else None
                    for (t, other) in ((a, 'b'), (b, 'a')):
                        if t.k == 'i':
                            v = t.a[1]
                            if c == 'sext' and -(1 << (ws - 1)) <= v < (1 << (ws - 1)):
                                if other == 'b':
                                    xa = ci(ws, v)
                                else:
                                    xb = ci(ws, v)
                            if c == 'zext' and 0 <= v < (1 << ws):
                                if other == 'b':
                                    xa = ci(ws, v)
                                else:
                                    xb = ci(ws, v)
                    if xa is not None and xb is not None:
                        a, b, w = xa, xb, ws
                        if c == 'zext' and pred == 'slt':
                            pred = 'ult'
        if a is b:
            return (pred == 'eq') != neg
        if pred == 'ult':       # 0 < x+c is x != -c, x+c < 1 is x == -c
            if a.k == 'i' and a.a[1] == 0 and b.k == 'lin':
                pred, neg = 'eq', not neg
            elif b.k == 'i' and b.a[1] == 1 and a.k == 'lin':
                pred, b = 'eq', ci(w, 0)
        if pred == 'eq':
            if w == 1:
                if a.k == 'i':
                    a, b = b, a
                if b.k == 'i':
                    return ('bool', a, (b.a[1] == 1) != neg) if b.a[1] else ('bool', a, neg)
            d = t_add(w, a, b, -1)
            if d.k == 'i':
                return (d.a[1] == 0) != neg
            p, c = lin_parts(d, w)
            lead = min(p, key=lambda x: x.n)
            if wrap(p[lead], w) < 0:
                d = t_scale(w, d, -1)
                p, c = lin_parts(d, w)
            base = mk_lin(w, p, 0)
            return ('req', base, wrap(-c, w), w, not neg)
        if b.k == 'i':      # x < c
            return ('rlt', pred[0], a, b.a[1], w, not neg)
        if a.k == 'i':      # c < x
            return ('rgt', pred[0], b, a.a[1], w, not neg)
        return ('lt', pred[0], a, b, w, not neg)

    def norm_pcmp(self, pred, a, b):
        a, b = as_ptr(a), as_ptr(b)
        neg = pred == 'ne'
        if pred in ('eq', 'ne'):
            if a.a[0] is b.a[0]:
                return (a.a[1] == b.a[1]) != neg
            ka, kb = a.a[0].k, b.a[0].k
            solid = ('alloca', 'glob', 'fn', 'null', 'heapobj')
            if ka in solid and kb in solid:
                return neg
            for x, y in ((a, b), (b, a)):
                if x.a[0].k == 'null' and (y.a[1] > 0):
                    return neg
                if x.a[0].k == 'null' and y.a[0].k == 'idx':
                    return neg
            # an object allocated in this function differs from anything the caller knew
            for x, y in ((a, b), (b, a)):
                if x.a[0].k == 'alloca' and y.a[0].k in ('arg', 'load'):
                    if y.a[0].k == 'load' and pbase(y.a[0].a[0]).k == 'alloca':
                        continue
                    return neg
            if b.n < a.n:
                a, b = b, a
            return ('peq', aspval(a), aspval(b), not neg)
        swap = {'ugt': 'ult', 'uge': 'ule'}
        if pred in swap:
            pred, a, b = swap[pred], b, a
        if a.a[0] is b.a[0]:
            return a.a[1] < b.a[1] if pred == 'ult' else a.a[1] <= b.a[1]
        if pred == 'ule':
            return ('plt', aspval(b), aspval(a), False)
        return ('plt', aspval(a), aspval(b), True)

    def decide(self, st, c):
        """truth of condition term c under the facts: True/False/None"""
        k = c.k
        if k == 'i':
            return bool(c.a[1] & 1)
        if k == 'not':
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if k == 'and':
            x, y = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if x is False or y is False:
                return False
            return True if (x and y) else None
        if k == 'or':
            x, y = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if x or y:
                return True
            return False if (x is False and y is False) else None
        if k == 'xor1':
            x, y = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            return None if x is None or y is None else x != y
        if k == 'icmp':
            n = self.norm_cmp(*c.a)
        elif k == 'pcmp':
            n = self.norm_pcmp(*c.a)
        elif k == 'fcmp':
            n = self.norm_fcmp(*c.a)
        else:
            n = ('bool', c, True)
        if n is True or n is False:
            return n
        r = self.q(st, n)
        return r

    def norm_fcmp(self, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        neg = False
        inv = {'uge': 'olt', 'ugt': 'ole', 'ule': 'ogt', 'ult': 'oge', 'une': 'oeq', 'uno': 'ord', 'ueq': 'one'}
        if pred in inv:
            pred, neg = inv[pred], True
        if pred in ('ogt', 'oge'):
            pred, a, b = {'ogt': 'olt', 'oge': 'ole'}[pred], b, a
        if a.k == 'f' and b.k == 'f':
            x, y = a.a[0], b.a[0]
            r = {'olt': x < y, 'ole': x <= y, 'oeq': x == y, 'one': x != y, 'ord': x == x and y == y}[pred]
            return r != neg
        if pred == 'oeq' and b.n < a.n:
            a, b = b, a
        return ('fc', pred, a, b, not neg)

    def q(self, st, n):
        k = n[0]
        f = st.facts
        if k == 'bool':
            t, pol = n[1], n[2]
            v = f.get(('b', t))
            if v is None:
                v = self.cl.implied(self, st, ('bool', t))
            return None if v is None else v == pol
        if k == 'req':
            base, c, w, pol = n[1:]
            if base.k == 'lin' and len(base.a[1]) == 2 and c == 0:
                (x, kx), (y, ky) = base.a[1]
                if kx == 1 and ky == -1:
                    for s in 'su':
                        if f.get(('lt', s, x, y)) or f.get(('lt', s, y, x)):
                            return not pol
                        if f.get(('lt', s, x, y)) is False and f.get(('lt', s, y, x)) is False:
                            return pol
                    rx, ry = self.rget(st, x, w), self.rget(st, y, w)
                    if rx[1] < ry[0] or ry[1] < rx[0] or rx[3] < ry[2] or ry[3] < rx[2]:
                        return not pol
                    if rx[0] == rx[1] == ry[0] == ry[1]:
                        return pol
            r = self.rget(st, base, w)
            if r[0] == r[1]:
                return (r[0] == c) == pol
            cu = c & ((1 << w) - 1)
            if c < r[0] or c > r[1] or cu < r[2] or cu > r[3] or c in r[4]:
                return not pol
            v = self.cl.implied(self, st, ('req', base, c, w))
            return None if v is None else v == pol
        if k in ('rlt', 'rgt'):
            s, t, c, w, pol = n[1:]
            lo, hi = self.range(st, t, w, s)
            if s == 'u':
                c &= (1 << w) - 1
            if k == 'rlt':
                if hi < c:
                    return pol
                if lo >= c:
                    return not pol
            else:
                if lo > c:
                    return pol
                if hi <= c:
                    return not pol
            v = self.cl.implied(self, st, (k, s, t, c, w))
            return None if v is None else v == pol
        if k == 'lt':
            s, a, b, w, pol = n[1:]
            v = f.get(('lt', s, a, b))
            if v is not None:
                return v == pol
            if f.get(('lt', s, b, a)):
                return not pol
            la, ha = self.range(st, a, w, s)
            lb, hb = self.range(st, b, w, s)
            if ha < lb:
                return pol
            if la >= hb:
                return not pol
            e = self.norm_cmp('eq', a, b, w)
            if e is not True and e is not False:
                r = self.qeq_only(st, e)
                if r is True:
                    return not pol
                if r is False and v is None and f.get(('lt', s, b, a)) is False:
                    return pol
            v = self.cl.implied(self, st, ('lt', s, a, b, w))
            return None if v is None else v == pol
        if k == 'peq':
            v = f.get(('peq', n[1], n[2]))
            if v is None:
                v = self.cl.implied(self, st, ('peq', n[1], n[2]))
            if v is None:
                # equal to two different solid objects is impossible
                solid = ('alloca', 'glob', 'fn', 'null', 'heapobj')
                for x, y in ((n[1], n[2]), (n[2], n[1])):
                    if pbase(y).k in solid:
                        for key, val in f.items():
                            if key[0] == 'peq' and val and (key[1] is x or key[2] is x):
                                o = key[2] if key[1] is x else key[1]
                                if pbase(o).k in solid and o is not y:
                                    return not n[3]
            return None if v is None else v == n[3]
        if k == 'plt':
            v = f.get(('plt', n[1], n[2]))
            return None if v is None else v == n[3]
        if k == 'fc':
            v = f.get(('fc', n[1], n[2], n[3]))
            if v is None:
                v = self.cl.implied(self, st, ('fc', n[1], n[2], n[3]))
            return None if v is None else v == n[4]
        return None

    def qeq_only(self, st, e):
        if e[0] != 'req':
            return None
        base, c, w, pol = e[1:]
        r = st.facts.get(('r', base))
        if r is None:
            return None
        if r[0] == r[1]:
            return (r[0] == c) == pol
        if c < r[0] or c > r[1] or c in r[4]:
            return not pol
        return None

    def range(self, st, t, w, s):
        if t.k == 'i':
            v = t.a[1]
            if s == 'u':
                v &= (1 << w) - 1
            return v, v
        if t.k == 'lin' and ('r', t) not in st.facts:
            lo = hi = t.a[2]
            for x, k in t.a[1]:
                l, h = self.range(st, x, w, s)
                lo, hi = lo + min(k * l, k * h), hi + max(k * l, k * h)
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == 's' else (0, (1 << w) - 1)
            if mn <= lo and hi <= mx:
                return lo, hi
            return mn, mx
        r = self.rget(st, t, w)
        return (r[0], r[1]) if s == 's' else (r[2], r[3])

    def add_atom(self, st, n, val):
        """add atom n (polarity folded in) with truth val; False if contradictory"""
        k = n[0]
        f = st.facts
        pol = n[-1] == val
        if k == 'bool':
            f[('b', n[1])] = pol
            ok = self.cl.assume(self, st, ('bool', n[1]), pol)
            return ok is not False
        if k == 'req':
            base, c, w = n[1], n[2], n[3]
            r = self.rget(st, base, w)
            if pol:
                cu = c & ((1 << w) - 1)
                if c < r[0] or c > r[1] or cu < r[2] or cu > r[3] or c in r[4]:
                    return False
                f[('r', base)] = (c, c, cu, cu, frozenset())
            else:
                if not self.rset(st, base, w, (r[0], r[1], r[2], r[3], r[4] | {c})):
                    return False
            return self.cl.assume(self, st, ('req', base, c, w), pol) is not False
        if k in ('rlt', 'rgt'):
            s, t, c, w = n[1:5]
            r = list(self.rget(st, t, w))
            lo, hi = (0, 1) if s == 's' else (2, 3)
            if s == 'u':
                c &= (1 << w) - 1
            if k == 'rlt':
                if pol:
                    r[hi] = min(r[hi], c - 1)
                else:
                    r[lo] = max(r[lo], c)
            else:
                if pol:
                    r[lo] = max(r[lo], c + 1)
                else:
                    r[hi] = min(r[hi], c)
            if r[lo] > r[hi]:
                return False
            if not self.rset(st, t, w, tuple(r)):
                return False
            return self.cl.assume(self, st, (k, s, t, c, w), pol) is not False
        if k == 'lt':
            f[('lt', n[1], n[2], n[3])] = pol
            return self.cl.assume(self, st, n[:-1], pol) is not False
        if k == 'peq':
            f[('peq', n[1], n[2])] = pol
            return self.cl.assume(self, st, ('peq', n[1], n[2]), pol) is not False
        if k == 'plt':
            f[('plt', n[1], n[2])] = pol
            return True
        if k == 'fc':
            f[('fc', n[1], n[2], n[3])] = pol
            return self.cl.assume(self, st, ('fc', n[1], n[2], n[3]), pol) is not False
        return True

    def assume(self, st, c, val):
        """-> list of states in which condition term c has truth val"""
        d = self.decide(st, c)
        if d is not None:
            return [st] if d == val else []
        k = c.k
        if k == 'not':
            return self.assume(st, c.a[0], not val)
        if k in ('and', 'or'):
            if (k == 'and') == val:
                out = []
                for s in self.assume(st, c.a[0], val):
                    out += self.assume(s, c.a[1], val)
                return out
            out = self.assume(st.copy(), c.a[0], val)
            for s in self.assume(st.copy(), c.a[0], not val):
                out += self.assume(s, c.a[1], val)
            return out
        if k == 'xor1':
            out = []
            for x in (True, False):
                for s in self.assume(st.copy(), c.a[0], x):
                    out += self.assume(s, c.a[1], x != val)
            return out
        if k == 'icmp':
            n = self.norm_cmp(*c.a)
        elif k == 'pcmp':
            n = self.norm_pcmp(*c.a)
        elif k == 'fcmp':
            n = self.norm_fcmp(*c.a)
        else:
            n = ('bool', c, True)
        s = st.copy()
        if not self.add_atom(s, n, val):
            return []
        return [s]

    def split(self, st, c):
        """[(state, bool)]"""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        return [(s, True) for s in self.assume(st.copy(), c, True)] + [(s, False) for s in self.assume(st.copy(), c, False)]

    # -- loop modes --
    def loop_controls(self, h):
        """for loop header h: list of exiting conditions whose dependencies are header phis, constants and
        loop-invariant values only: [(cond operand, phi ids, invariant ids)]"""
        if h in self._loopinfo:
            return self._loopinfo[h]
        body = self.fn.loops[h]
        fn = self.fn
        out = []
        for b in body:
            t = fn.blocks[b].insts[-1]
            if t.op == 'br' and t.ops and any(s not in body for s in fn.blocks[b].succs):
                phis, inv, ok = set(), set(), True
                st, seen = [t.ops[0]], set()
                while st and ok:
                    o = st.pop()
                    if o[0] != 'v' or o[1] in seen:
                        continue
                    seen.add(o[1])
                    i = fn.insts.get(o[1])
                    if i is None or i.bb not in body:
                        inv.add(o[1])
                        continue
                    if i.op == 'phi' and i.bb == h:
                        phis.add(o[1])
                        # the update must itself be simple
                        for v, pb in i.ops:
                            if pb in body:
                                st.append(v)
                        continue
                    if i.op in ('icmp', 'add', 'sub', 'zext', 'sext', 'trunc', 'gep', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'ptrtoint', 'udiv', 'sdiv', 'ashr'):
                        st.extend(operands(i))
                        continue
                    ok = False
                if ok and phis:
                    out.append((t.ops[0], frozenset(phis), frozenset(inv)))
        mods = None
        self._loopinfo[h] = out
        return out

    def trip(self, st, h):
        """simulate the constant-trip loops' counters: is some exit condition reached within the bound?"""
        body = self.fn.loops[h]
        ctl = self.loop_controls(h)
        if not ctl:
            return False
        for cond, phis, inv in ctl:
            cur = {}
            ok = True
            for p in phis:
                v = st.env.get(p)
                if v is None or not (v.k == 'i' or pbase(v).k not in ('phi',)):
                    ok = False
                cur[p] = v
            if not ok:
                continue
            br = [t for b in body for t in (self.fn.blocks[b].insts[-1],) if t.op == 'br' and t.ops and t.ops[0] == cond and any(x not in body for x in self.fn.blocks[b].succs)][0]
            stay = br.x[0] in body

            def evl(o, memo):
                if o[0] != 'v':
                    return self.ev(st, o)
                if o[1] in memo:
                    return memo[o[1]]
                i = self.fn.insts.get(o[1])
                if i is None or i.bb not in body:
                    r = st.env.get(o[1], UNDEF)
                elif i.op == 'phi':
                    r = cur.get(o[1], UNDEF)
                elif i.op == 'gep':
                    b, off, var = i.x
                    t = evl(b, memo)
                    for sc, vo in var:
                        x = evl(vo, memo)
                        if x.k != 'i':
                            return UNDEF
                        off += sc * x.a[1]
                    r = aspval(ptr(as_ptr(t), off))
                elif i.op in ('zext', 'sext', 'trunc'):
                    a = evl(i.ops[0], memo)
                    r = t_cast(i.op, int(i.ty[1:]), a, int(i.x[1:])) if a.k == 'i' else UNDEF
                elif i.op == 'icmp':
                    a, b = evl(i.ops[0], memo), evl(i.ops[1], memo)
                    w = self.opwidth(i)
                    n = self.norm_pcmp(i.x, a, b) if w == 0 else (self.norm_cmp(i.x, a, b, w) if a.k == 'i' and b.k == 'i' else None)
                    r = TRUE if n is True else (FALSE if n is False else UNDEF)
                elif i.op in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr', 'udiv', 'sdiv', 'ashr'):
                    a, b = evl(i.ops[0], memo), evl(i.ops[1], memo)
                    r = self.arith(st, i.op, i.ty, a, b) if a.k == 'i' and b.k == 'i' else UNDEF
                else:
                    r = UNDEF
                memo[o[1]] = r
                return r
            for _ in range(self.cl.max_concrete + 1):
                memo = {}
                c = evl(cond, memo)
                if c.k != 'i':
                    break
                if bool(c.a[1] & 1) != stay:
                    return True
                new = {}
                for p in phis:
                    i = self.fn.insts[p]
                    vs = {evl(v, memo) for v, pb in i.ops if pb in body}
                    new[p] = vs.pop() if len(vs) == 1 else UNDEF
                cur = new
        return False

    def concrete_loop(self, st, h, first=False):
        if first and not self.trip(st, h):
            return False

        def isc(v):
            if v is None:
                return False
            if v.k in ('i', 'null'):
                return True
            if v.k == 'ptr' or v.k in ('alloca', 'glob', 'heapobj', 'arg', 'load', 'idx', 'hv'):
                return True
            return False
        for cond, phis, inv in self.loop_controls(h):
            vals = [st.env.get(p) for p in phis] + [st.env.get(p) for p in inv]
            if not all(isc(v) for v in vals):
                continue
            # integers must all be constants; pointers must share one base
            ints = [v for v in vals if v.k == 'i']
            ptrs = [v for v in vals if v.k != 'i']
            bases = {pbase(v) for v in ptrs}
            if len(bases) > 1:
                continue
            # constants in the condition bound the trip count?
            if ptrs or ints:
                return True
        return False

    def loop_mods(self, h):
        key = ('mods', h)
        if key in self._loopinfo:
            return self._loopinfo[key]
        stores, calls = [], False
        for b in self.fn.loops[h]:
            for i in self.fn.blocks[b].insts:
                if i.op == 'store':
                    stores.append(i)
                elif i.op == 'call' and not (i.callee.startswith('llvm.lifetime') or i.callee.startswith('llvm.dbg')) and \
                        not self.cl.readonly(self, self.short(i.callee)[0]):
                    calls = True
        self._loopinfo[key] = (stores, calls)
        return stores, calls

    # -- driver --
    def run(self):
        fn = self.fn
        st = State()
        st.env = {a: self.args[i] for i, a in enumerate(fn.args)}
        st.mem, st.rng, st.ep, st.facts = dict(self.mem0), {}, {}, {}
        st.c = self.cl.initial
        st.it = ()
        st.path = None
        st.tag = 0
        st2 = self.cl.start(self, st) if hasattr(self.cl, 'start') else st
        work = []
        import heapq
        seen = {}
        n = 0

        def push(s, b, frm):
            nonlocal n
            for s2 in self.enter(s, b, frm):
                if not self.cl.prune(self, s2, b):
                    continue
                key = self.key(s2, b)
                ks = seen.setdefault(b, set())
                if key in ks:
                    continue
                ks.add(key)
                self.nstates += 1
                if self.nstates > self.cl.max_states:
                    raise AnalysisError('state budget exceeded in ' + self.mod.dname(fn.name))
                n += 1
                heapq.heappush(work, (len(s2.it), fn.rpo.get(b, 0), n, s2, b)) if False else work.append((s2, b))
        for s in (st2 if isinstance(st2, list) else [st2]):
            push(s, 0, None)
        while work:
            s, b = work.pop()
            self.covered.add(b)
            for (s2, nb) in self.block(s, b):
                push(s2, nb, b)
        return self

    def key(self, s, b):
        live = self.fn.live[b] | {p.id for p in self.fn.blocks[b].phis}
        s.env = {k: v for k, v in s.env.items() if k in live}
        # drop memory of dead allocas (no live value or memory cell reaches them)
        roots = set()
        for v in s.env.values():
            roots |= leaves(v)
        for (ba, o), (sz, v) in s.mem.items():
            if ba.k != 'alloca':
                roots |= leaves(v)
                roots |= leaves(ba)
        ch = True
        cells = [(k, v) for k, v in s.mem.items() if k[0].k == 'alloca']
        live_al = {x for x in roots if x.k == 'alloca'} | {a for a in self.escaped(s)}
        while ch:
            ch = False
            rest = []
            for (k, v) in cells:
                if k[0] in live_al:
                    new = {x for x in leaves(v[1]) if x.k == 'alloca'} - live_al
                    roots |= leaves(v[1])
                    if new:
                        live_al |= new
                        ch = True
                else:
                    rest.append((k, v))
            cells = rest
        for ba, rs in s.rng.items():
            if ba.k != 'alloca' or ba in live_al:
                for r in rs:
                    if r[2] is not None:
                        roots |= leaves(r[2])
        for (k, v) in cells:
            del s.mem[k]
        for ba in [x for x in s.rng if x.k == 'alloca' and x not in live_al]:
            del s.rng[ba]
        for ba in [x for x in s.ep if x != '*' and x.k == 'alloca' and x not in live_al]:
            del s.ep[ba]
        # facts about values that can no longer be computed again
        drop = []
        for key in s.facts:
            ts = [x for x in key[1:] if isinstance(x, T)]
            dead = False
            for t in ts:
                for x in leaves(t):
                    if x.k in ('call', 'hv', 'phi', 'undef') and x not in roots and not self.cl_roots(s, x):
                        dead = True
                        break
                if dead:
                    break
            if dead or not self.cl.keep_fact(self, s, key, roots):
                drop.append(key)
        for key in drop:
            del s.facts[key]
        return (frozenset(s.env.items()), frozenset(s.mem.items()), frozenset(s.rng.items()),
                frozenset(s.ep.items()), frozenset(s.facts.items()), s.c, s.it)

    def cl_roots(self, s, x):
        f = getattr(self.cl, 'roots', None)
        return f is not None and f(self, s, x)

    def escaped(self, s):
        return ()

    def enter(self, s, b, frm):
        fn = self.fn
        blk = fn.blocks[b]
        phis = {}
        for p in blk.phis:
            for v, pb in p.ops:
                if pb == frm:
                    phis[p.id] = self.ev(s, v)
                    break
        s = s.copy()
        # leaving loops: drop their iteration context
        s.it = tuple((h, k) for (h, k) in s.it if b in fn.loops[h])
        s.env.update(phis)
        if b in fn.loops:
            back = frm in fn.loops[b] if frm is not None else False
            cur = dict(s.it)
            if back:
                r = self.cl.backedge(self, s, b)
                if r is False:
                    return []
            if not back:
                conc = self.concrete_loop(s, b, True)
                k = 0 if conc else -1
            else:
                k = cur.get(b, -1)
                if k >= 0:
                    k = k + 1 if (k < self.cl.max_concrete and self.concrete_loop(s, b)) else -1
            cur[b] = k
            s.it = tuple(sorted(cur.items()))
            if k < 0:
                if not back:
                    self.cl.loop_entry(self, s, b)
                self.widen(s, b)
            self.cl.header(self, s, b, back, k)
        return [s]

    def widen(self, s, h):
        fn = self.fn
        stores, calls = self.loop_mods(h)
        for p in fn.blocks[h].phis:
            s.env[p.id] = self.cl.widen_phi(self, s, h, p) if hasattr(self.cl, 'widen_phi') else mk('phi', h, p.id)
            self.forget(s, s.env[p.id])
        # memory modified in the loop
        allocs = set()
        heap = calls
        cells = []
        for i in stores:
            a = i.ops[1]
            bases = self.root_allocas(a)
            allocs |= bases - {None}
            if None not in bases:
                continue
            c = None if heap else self.invariant_addr(s, a, h)
            if c is None:
                heap = True
            else:
                cells.append((c, i.x))
        for b in fn.loops[h]:
            for i in fn.blocks[b].insts:
                if i.op == 'call':
                    for o in i.ops:
                        allocs |= self.root_allocas(o) - {None}
        for k in [k for k in s.mem if k[0].k == 'alloca' and k[0].a[0] in allocs]:
            s.mem.pop(k, None)
        for al in [x for x in set(s.rng) | set(s.ep) | set(k[0] for k in s.mem) if x != '*' and x.k == 'alloca' and x.a[0] in allocs]:
            self.havoc_base(s, al, ('loop', h))
        for al in allocs:
            s.ep[mk('alloca', al)] = ('loop', h)
        if not heap:
            for c, size in cells:
                b, o = as_ptr(c).a
                self.clear_range(s, b, o, size)
                s.mem[(b, o)] = (size, mk('load', ptr(b, o), ('loop', h)))
        if heap:
            self.cl.widen_heap(self, s, h) if hasattr(self.cl, 'widen_heap') else self.havoc_heap(s, ('loop', h))
        # facts on values defined in the loop
        tag = ('loop', h)
        drop = []
        for key in s.facts:
            for t in key[1:]:
                if isinstance(t, T) and any((x.k in ('call', 'hv') and self.site_in(x, h)) or (x.k == 'load' and x.a[1] == tag) for x in leaves(t)):
                    drop.append(key)
                    break
        for key in drop:
            del s.facts[key]

    def invariant_addr(self, s, o, h):
        off = 0
        for _ in range(50):
            if o[0] == 'g' or o[0] == 'cgep':
                return aspval(ptr(self.ev(s, o), off))
            if o[0] != 'v':
                return None
            i = self.fn.insts.get(o[1])
            if i is None or i.bb not in self.fn.loops[h]:
                t = s.env.get(o[1])
                return aspval(ptr(t, off)) if t is not None and t.k != 'undef' else None
            if i.op == 'gep' and not i.x[2]:
                off += i.x[1]
                o = i.x[0]
            elif i.op in ('bitcast', 'freeze'):
                o = i.ops[0]
            else:
                return None
        return None

    def site_in(self, x, h):
        i = x.a[0]
        ii = self.fn.insts.get(i)
        return ii is not None and ii.bb in self.fn.loops[h]

    def root_allocas(self, o):
        """the allocas a pointer operand may be based on; None in the set: also something else"""
        out, seen, work = set(), set(), [o]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            i = self.fn.insts.get(o[1]) if o[0] == 'v' else None
            if i is None:
                out.add(None)
            elif i.op == 'alloca':
                out.add(i.id)
            elif i.op == 'gep':
                work.append(i.x[0])
            elif i.op in ('bitcast', 'freeze'):
                work.append(i.ops[0])
            elif i.op == 'phi':
                work += [v for v, _ in i.ops]
            elif i.op == 'select':
                work += list(i.ops[1:3])
            else:
                out.add(None)
        return out

    def forget(self, s, t):
        for key in [k for k in s.facts if any(isinstance(x, T) and t in leaves(x) for x in k[1:])]:
            del s.facts[key]

    def fresh(self, s, inst, kind='call', extra=None):
        it = tuple((h, k) for h, k in s.it if k >= 0)
        t = mk(kind, inst.id, it, extra)
        self.forget(s, t)
        return t

    def block(self, st, b):
        """-> [(state, next block)]"""
        cur = [st]
        blk = self.fn.blocks[b]
        for i in blk.insts:
            if i.op == 'phi':
                continue
            nxt = []
            for s in cur:
                r = self.step(s, i)
                if r is None:
                    nxt.append(s)
                else:
                    for x in r:
                        if isinstance(x, tuple):
                            nxt.append(x)
                        else:
                            nxt.append(x)
            cur = nxt
            if not cur:
                return []
            if i.op in ('br', 'switch', 'ret', 'unreachable'):
                break
        return [x for x in cur if isinstance(x, tuple)]

    def note(self, s, i, what):
        s.path = (s.path, i.id, what)

    def trace(self, s, limit=40):
        out = []
        p = s.path
        while p and len(out) < limit:
            i = self.fn.insts[p[1]]
            out.append('%s -> %s' % (self.fn.where(i), p[2]))
            p = p[0]
        return out[::-1]

    def step(self, s, i):
        """None: state updated in place; else list of states / (state, block)"""
        self.nsteps += 1
        op = i.op
        env = s.env
        if op == 'load':
            a = self.ev(s, i.ops[0])
            v = self.load(s, a, i.x, i.ty)
            r = self.cl.on_load(self, s, i, a, v, i.x)
            if r is not None:
                v = r
            if i.ty == 'ptr':
                v = aspval(v)
                if v.k == 'i' and v.a[1] == 0:
                    v = NULL
            elif i.ty.startswith('i') and v is NULL:
                v = ci(int(i.ty[1:]), 0)
            env[i.id] = v
            return None
        if op == 'store':
            v = self.ev(s, i.ops[0])
            a = self.ev(s, i.ops[1])
            r = self.cl.store(self, s, i, a, v, i.x)
            if r is False:
                return None
            if isinstance(r, list):
                return r
            self.store(s, a, v, i.x)
            return None
        if op == 'gep':
            b, off, var = i.x
            t = as_ptr(self.ev(s, b))
            for sc, o in var:
                v = self.ev(s, o)
                if v.k == 'i':
                    off += sc * v.a[1]
                elif v.k in ('lin',) and v.a[2]:
                    off += sc * v.a[2]
                    v = mk_lin(v.a[0], dict(v.a[1]), 0)
                    t = ptr(mk('idx', aspval(t), sc, v), 0)
                else:
                    t = ptr(mk('idx', aspval(t), sc, v), 0)
            env[i.id] = aspval(ptr(t, off))
            return None
        if op == 'alloca':
            t = mk('alloca', i.id)
            env[i.id] = t
            return None
        if op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.ev(s, i.ops[0]), self.ev(s, i.ops[1])
            r = self.cl.binop(self, s, i, op, a, b)
            if r is not None:
                if isinstance(r, list):
                    return r
                env[i.id] = r
                return None
            env[i.id] = self.arith(s, op, i.ty, a, b)
            return None
        if op in ('fadd', 'fmul', 'fsub', 'fdiv', 'frem'):
            env[i.id] = self.farith(op, self.ev(s, i.ops[0]), self.ev(s, i.ops[1]))
            return None
        if op == 'fneg':
            a = self.ev(s, i.ops[0])
            env[i.id] = cf(-a.a[0]) if a.k == 'f' else (a.a[0] if a.k == 'fneg' else mk('fneg', a))
            return None
        if op in ('zext', 'sext', 'trunc'):
            a = self.ev(s, i.ops[0])
            wf, wt = int(i.x[1:]), int(i.ty[1:])
            if wf == 1 and a.k != 'i':
                # turn a truth value into a number: case split
                out = []
                for s2, v in self.split(s, a):
                    s2.env[i.id] = ci(wt, (1 if op == 'zext' else -1) if v else 0)
                    out.append(s2)
                return out
            if wt == 1:
                if a.k == 'zext' and a.a[1] == 1:
                    env[i.id] = a.a[2]
                elif a.k == 'i':
                    env[i.id] = ci(1, a.a[1])
                else:
                    env[i.id] = mk('trunc1', a)
                return None
            env[i.id] = t_cast(op, wt, a, wf)
            return None
        if op == 'icmp':
            a, b = self.ev(s, i.ops[0]), self.ev(s, i.ops[1])
            w = self.opwidth(i)
            if w == 0:
                env[i.id] = mk('pcmp', i.x, a, b)
            else:
                env[i.id] = mk('icmp', i.x, a, b, w)
            return None
        if op == 'fcmp':
            env[i.id] = mk('fcmp', i.x, self.ev(s, i.ops[0]), self.ev(s, i.ops[1]))
            return None
        if op == 'select':
            c = self.ev(s, i.ops[0])
            out = []
            sp = self.split(s, c)
            for s2, v in sp:
                s2.env[i.id] = self.ev(s2, i.ops[1 if v else 2])
                if len(sp) > 1:
                    self.note(s2, i, 'true' if v else 'false')
                out.append(s2)
            return out
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            env[i.id] = self.ev(s, i.ops[0])
            return None
        if op == 'ptrtoint':
            a = self.ev(s, i.ops[0])
            p = as_ptr(a)
            if p.a[0].k == 'null':
                env[i.id] = ci(64, p.a[1])
            else:
                b = p.a[0]
                if b.k == 'inttoptr':
                    b = b.a[0]
                else:
                    b = mk('ptrtoint', b)
                env[i.id] = t_add(64, b, ci(64, p.a[1]))
            return None
        if op == 'inttoptr':
            a = self.ev(s, i.ops[0])
            p, c = lin_parts(a, 64)
            if not p:
                env[i.id] = NULL if c == 0 else ptr(NULL, c)
            elif len(p) == 1 and next(iter(p)).k == 'ptrtoint' and p[next(iter(p))] == 1:
                b = next(iter(p)).a[0]
                if b.k == 'ptr':
                    b, c = b.a[0], c + b.a[1]
                env[i.id] = aspval(ptr(b, c))
            else:
                env[i.id] = mk('inttoptr', a)
            return None
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fptrunc', 'fpext'):
            a = self.ev(s, i.ops[0])
            if a.k == 'i' and op in ('uitofp', 'sitofp'):
                v = a.a[1]
                if op == 'uitofp':
                    v &= (1 << a.a[0]) - 1
                env[i.id] = cf(float(v))
            elif a.k == 'f' and op in ('fptoui', 'fptosi'):
                env[i.id] = ci(int(i.ty[1:]), int(a.a[0]))
            elif a.k == 'f':
                env[i.id] = a
            else:
                env[i.id] = mk(op, i.ty, a)
            return None
        if op == 'extractvalue':
            a = self.ev(s, i.ops[0])
            for x in i.x:
                if a.k == 'agg':
                    a = a.a[x]
                else:
                    a = mk('ev', a, x)
            env[i.id] = a
            return None
        if op == 'insertvalue':
            a, v = self.ev(s, i.ops[0]), self.ev(s, i.ops[1])
            if len(i.x) == 1:
                k = i.x[0]
                l = list(a.a) if a.k == 'agg' else ([mk('ev', a, j) for j in range(max(k + 1, 2))] if a.k != 'undef' else [UNDEF] * max(k + 1, 2))
                while len(l) <= k:
                    l.append(UNDEF)
                l[k] = v
                env[i.id] = mk('agg', *l)
            else:
                env[i.id] = self.fresh(s, i)
            return None
        if op == 'br':
            if not i.ops:
                return [(s, i.x[0])]
            c = self.ev(s, i.ops[0])
            if c.k == 'undef':
                return [(s.copy(), i.x[0]), (s.copy(), i.x[1])]
            out = []
            sp = self.split(s, c)
            for s2, v in sp:
                if len(sp) > 1:
                    self.note(s2, i, 'true' if v else 'false')
                tgt = i.x[0 if v else 1]
                if s2.it and any(tgt not in self.fn.loops[h] for h, _ in s2.it):
                    self.cl.loop_exit(self, s2, i, c, v, tgt)
                out.append((s2, tgt))
            return out
        if op == 'switch':
            v = self.ev(s, i.ops[0])
            w = self.opwidth(i)
            out, rest = [], [s]
            for cv, blk in i.x[1]:
                cond = mk('icmp', 'eq', v, self.ev(s, cv), w)
                nr = []
                for r in rest:
                    for s2, t in self.split(r, cond):
                        if t:
                            self.note(s2, i, 'case %s' % show(self.ev(s, cv)))
                            out.append((s2, blk))
                        else:
                            nr.append(s2)
                rest = nr
            for r in rest:
                self.note(r, i, 'default')
                out.append((r, i.x[0]))
            return out
        if op == 'ret':
            v = self.ev(s, i.ops[0]) if i.ops else None
            self.cl.ret(self, s, i, v)
            return []
        if op == 'unreachable':
            self.cl.end(self, s, i, 'unreachable')
            return []
        if op == 'call':
            return self.call(s, i)
        if i.ty != 'void':
            env[i.id] = self.fresh(s, i, 'op')
        return None

    def opwidth(self, i):
        o = i.ops[0]
        ty = self.fn.vty.get(o[1]) if o[0] == 'v' else ('i%d' % o[1] if o[0] == 'i' else 'ptr')
        if o[0] != 'v' and o[0] != 'i' and len(i.ops) > 1 and i.ops[1][0] == 'v':
            ty = self.fn.vty.get(i.ops[1][1])
        if ty and ty.startswith('i') and ty[1:].isdigit():
            return int(ty[1:])
        return 0

    def arith(self, s, op, ty, a, b):
        if ty.startswith('ty') or not ty[1:].isdigit():
            return mk(op, a, b)
        w = int(ty[1:])
        if w == 1:
            if op == 'and':
                if a.k == 'i':
                    return b if a.a[1] else a
                if b.k == 'i':
                    return a if b.a[1] else b
                return mk('and', a, b)
            if op == 'or':
                if a.k == 'i':
                    return a if a.a[1] else b
                if b.k == 'i':
                    return b if b.a[1] else a
                return mk('or', a, b)
            if op == 'xor':
                if b.k == 'i' and b.a[1]:
                    return a.a[0] if a.k == 'not' else (mk('not', a) if a.k != 'i' else ci(1, 1 - (a.a[1] & 1)))
                if b.k == 'i':
                    return a
                return mk('xor1', a, b)
        if a.k == 'i' and b.k == 'i':
            x, y = a.a[1], b.a[1]
            ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
            try:
                v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << uy,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'lshr': lambda: ux >> uy,
                     'ashr': lambda: x >> uy, 'udiv': lambda: ux // uy, 'urem': lambda: ux % uy,
                     'sdiv': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                     'srem': lambda: abs(x) % abs(y) * (1 if x >= 0 else -1)}[op]()
                return ci(w, v)
            except ZeroDivisionError:
                return UNDEF
        if op == 'add':
            return t_add(w, a, b)
        if op == 'sub':
            r = t_add(w, a, b, -1)
            return untag(s, r) if w == 64 and r.k not in ('i', 'ptrtoint') else r
        if op == 'mul':
            if a.k == 'i':
                a, b = b, a
            if b.k == 'i':
                return t_scale(w, a, b.a[1])
        if op == 'shl' and b.k == 'i':
            return t_scale(w, a, 1 << (b.a[1] & 63))
        if op in ('and', 'or', 'xor') and w == 64:
            t = tag_op(s, op, a, b)
            if t is not None:
                return t
        if op in ('and', 'or', 'xor', 'mul'):
            if b.k == 'i' and b.a[1] == 0 and op in ('or', 'xor'):
                return a
            if b.k == 'i' and b.a[1] == 0 and op == 'and':
                return b
            if b.k == 'i' and b.a[1] == -1 and op == 'and':
                return a
            if a is b and op in ('and', 'or'):
                return a
            if b.n < a.n:
                a, b = b, a
        if op in ('sdiv', 'udiv', 'lshr', 'ashr', 'shl') and b.k == 'i':
            if (op.endswith('div') and b.a[1] == 1) or (not op.endswith('div') and b.a[1] == 0):
                return a
            # exact division of pointer differences / multiples
            if op in ('sdiv', 'ashr'):
                d = b.a[1] if op == 'sdiv' else 1 << b.a[1]
                p, c = lin_parts(a, w)
                if d and c % d == 0 and all(k % d == 0 for k in p.values()) and p:
                    return mk_lin(w, {x: k // d for x, k in p.items()}, c // d)
        return mk('i' + op, w, a, b)

    def farith(self, op, a, b):
        if a.k == 'f' and b.k == 'f':
            try:
                return cf({'fadd': a.a[0] + b.a[0], 'fsub': a.a[0] - b.a[0], 'fmul': a.a[0] * b.a[0],
                           'fdiv': (a.a[0] / b.a[0]) if b.a[0] else float('nan')}[op])
            except KeyError:
                pass
        if op in ('fadd', 'fmul') and b.n < a.n:
            a, b = b, a
        return mk(op, a, b)

    # -- calls --
    def call(self, s, i):
        n = i.callee
        if n.startswith('llvm.'):
            return self.intrinsic(s, i, n)
        sh, full = self.short(n)
        args = [self.ev(s, o) for o in i.ops]
        self.calls_seen.add((i.id, sh))
        r = self.cl.call(self, s, i, sh, full, args)
        if r is not None:
            return r if isinstance(r, list) else None
        if n in ('__cxa_throw', '__cxa_rethrow') or sh.startswith('std::__throw'):
            self.cl.end(self, s, i, 'throw')
            return []
        if n in ('abort', 'exit', '__assert_fail', '_ZSt9terminatev'):
            self.cl.end(self, s, i, 'abort')
            return []
        self.default_call(s, i, sh, args)
        return None

    PURE = {'sqrt', 'cos', 'sin', 'pow', 'log2', 'atan2', 'fabs', 'fmod', 'floor', 'ceil', 'round', 'exp', 'log',
            'hypot', 'lround', 'llround', 'acos', 'asin', 'atan', 'tan', 'rint', 'nearbyint', 'trunc', 'fmax', 'fmin',
            'ldexp', 'cbrt'}

    def default_call(self, s, i, sh, args):
        if sh in self.PURE:
            s.env[i.id] = mk('fn_' + sh, *args)
            return
        if sh == 'cexp' and len(args) == 2:
            e = mk('fn_exp', args[0])
            s.env[i.id] = mk('agg', self.farith('fmul', e, mk('fn_cos', args[1])), self.farith('fmul', e, mk('fn_sin', args[1])))
            return
        fa = self.farith
        if sh == 'cabs' and len(args) == 2:
            s.env[i.id] = mk('fn_hypot', *args)
            return
        if sh == 'carg' and len(args) == 2:
            s.env[i.id] = mk('fn_atan2', args[1], args[0])
            return
        if sh in ('__muldc3', '__divdc3') and len(args) == 4:
            a, b, c, d = args
            if sh == '__divdc3':
                n = fa('fadd', fa('fmul', c, c), fa('fmul', d, d))
                c, d = fa('fdiv', c, n), mk('fneg', fa('fdiv', d, n))
            s.env[i.id] = mk('agg', fa('fsub', fa('fmul', a, c), fa('fmul', b, d)), fa('fadd', fa('fmul', a, d), fa('fmul', b, c)))
            return
        t = self.fresh(s, i)
        for a in args:
            if a.k in ('ptr', 'alloca', 'arg', 'load', 'call', 'glob', 'idx', 'phi') and self.points(a):
                b = pbase(a)
                if b.k == 'glob' and self.is_static(b):
                    continue
                self.havoc_base(s, b, t)
        if i.ty != 'void':
            s.env[i.id] = t

    def points(self, a):
        return True

    def intrinsic(self, s, i, n):
        a = [self.ev(s, o) for o in i.ops]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if a[2].k == 'i':
                r = self.cl.memcpy(self, s, i, a[0], a[1], a[2].a[1]) if hasattr(self.cl, 'memcpy') else None
                if r is None:
                    self.memcpy(s, a[0], a[1], a[2].a[1])
            else:
                self.havoc_base(s, pbase(a[0]), self.fresh(s, i))
            return None
        if n.startswith('llvm.memset'):
            if a[2].k == 'i':
                self.memset(s, a[0], a[1], a[2].a[1])
            else:
                self.havoc_base(s, pbase(a[0]), self.fresh(s, i))
            return None
        if n.startswith('llvm.fabs'):
            s.env[i.id] = cf(abs(a[0].a[0])) if a[0].k == 'f' else mk('fabs', a[0].a[0] if a[0].k == 'fneg' else a[0])
            return None
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            s.env[i.id] = self.farith('fadd', self.farith('fmul', a[0], a[1]), a[2])
            return None
        if n.startswith('llvm.sqrt'):
            s.env[i.id] = mk('fn_sqrt', a[0])
            return None
        if n.startswith('llvm.expect'):
            s.env[i.id] = a[0]
            return None
        if n.startswith('llvm.umul.with.overflow') or n.startswith('llvm.uadd.with.overflow'):
            s.env[i.id] = mk('agg', self.arith(s, 'mul' if 'mul' in n else 'add', 'i64', a[0], a[1]), FALSE)
            return None
        for nm, pr in (('llvm.umin', 'ult'), ('llvm.umax', 'ugt'), ('llvm.smin', 'slt'), ('llvm.smax', 'sgt')):
            if n.startswith(nm):
                w = int(i.ty[1:])
                out = []
                for s2, v in self.split(s, mk('icmp', pr, a[0], a[1], w)):
                    s2.env[i.id] = a[0] if v else a[1]
                    out.append(s2)
                return out
        if n.startswith('llvm.is.constant'):
            # a hint to the compiler: both answers are allowed; the analysis follows the general one
            s.env[i.id] = FALSE
            return None
        if n.startswith('llvm.assume'):
            return self.assume(s, a[0], True)
        if n.startswith('llvm.') and i.ty != 'void':
            s.env[i.id] = mk('fn_' + n, *a)
        return None


# ------------------------------------------------------------------------------------------------- statics
def static_values(mod):
    """Constant contents of the library's immutable static objects (Complex::zero/one, Edge::zero/one,
    terminal nodes, constant tables), read off their initialisers."""
    import llvmir as I
    out = {}
    g = I.FirstGlobal(mod.m)
    pats = ('dd::Complex::zero', 'dd::Complex::one', '::terminalNode', 'dd::Edge<', 'dd::CachedEdge<')
    names = {}
    while g:
        n = I.name_of(g)
        d = mod.dname(n)
        init = I.GetInit(g)
        if init and (I.IsGlobalConstant(g) or any(d.startswith(p) or d.endswith(p) for p in pats)) and not n.startswith('_ZTV'):
            cells = {}
            flatten(mod, init, 0, cells)
            out[n] = cells
        if init and d.startswith('dd::ComplexTable') and d.split('::')[-1] in ('zero', 'one', 'sqrt2_2'):
            cells = {}
            flatten(mod, init, 0, cells)
            out[n] = {0: cells[0]} if 0 in cells else {}
        g = I.NextGlobal(g)
    # dynamic initialisers
    for f in list(mod.functions()):
        n = I.name_of(f)
        if I.IsDecl(f) or not n.startswith('__cxx_global_var_init'):
            continue
        fn = mod.fn(n)
        cl = _InitClient(out, mod)
        Engine(fn, cl, statics={}).run()
    return out


class _InitClient(Client):
    def __init__(self, out, mod):
        self.out, self.mod = out, mod

    def call(self, eng, st, inst, short, full, args):
        if short == '__cxa_guard_acquire':
            st.env[inst.id] = ci(32, 1)
            return True
        return None

    def on_load(self, eng, st, inst, addr, val, size):
        b = pbase(addr)
        if b.k == 'glob' and b.a[0].startswith('_ZGV'):
            return ci(size * 8, 0)
        if b.k == 'glob' and b.a[0] in self.out and val.k == 'load':
            return self.out[b.a[0]].get(poff(addr))
        return None

    def ret(self, eng, st, inst, val):
        for b in set(list(st.rng) + [k[0] for k in st.mem]):
            if b.k != 'glob':
                continue
            d = self.mod.dname(b.a[0])
            if b.a[0] not in self.out:
                continue
            tgt = self.out[b.a[0]]
            for (lo, ln, sb, so, ep) in st.rng.get(b, ()):
                if sb is not None and sb.k == 'glob' and sb.a[0] in self.out:
                    for o, v in self.out[sb.a[0]].items():
                        if so <= o < so + ln:
                            tgt[lo + o - so] = v
            for k, v in st.mem.items():
                if k[0] is b:
                    tgt[k[1]] = v[1]


def flatten(mod, v, off, cells):
    import llvmir as I
    t = I.TypeOf(v)
    k = I.TypeKind(t)
    if k == 10:
        for j in range(I.CountStruct(t)):
            e = I.AggElem(v, j)
            flatten(mod, e, off + I.OffsetOf(mod.dl, t, j), cells)
    elif k == 11:
        n = I.ArrayLen(t)
        et = I.ElemType(t)
        sz = I.ABISize(mod.dl, et)
        for j in range(n):
            e = I.AggElem(v, j)
            flatten(mod, e, off + j * sz, cells)
    else:
        kind = I.VK.get(I.ValueKind(v))
        if kind == 'int':
            w = I.IntWidth(t)
            if w <= 64:
                cells[off] = ci(w, I.SExt(v))
        elif kind == 'fp':
            import ctypes
            cells[off] = cf(I.RealVal(v, ctypes.byref(I._loses)))
        elif kind == 'null':
            cells[off] = NULL
        elif kind in ('gvar', 'alias'):
            cells[off] = mk('glob', I.name_of(v))
        elif kind == 'func':
            cells[off] = mk('fn', I.name_of(v))
        elif kind == 'cexpr':
            try:
                b, o, var = Function_gep(mod, v)
                if not var:
                    cells[off] = aspval(ptr(b, o))
            except Exception:
                pass


def Function_gep(mod, v):
    import llvmir as I
    if I.OPC.get(I.ConstOpc(v)) != 'gep':
        raise ValueError
    ty = I.GEPType(v)
    base = I.GetOp(v, 0)
    off = 0
    for k in range(1, I.NumOps(v)):
        idx = I.GetOp(v, k)
        if k == 1:
            sc = I.ABISize(mod.dl, ty)
        elif I.TypeKind(ty) == 10:
            cidx = I.ZExt(idx)
            off += I.OffsetOf(mod.dl, ty, cidx)
            ty = I.StructElem(ty, cidx)
            continue
        else:
            ty = I.ElemType(ty)
            sc = I.ABISize(mod.dl, ty)
        off += I.SExt(idx) * sc
    return mk('glob', I.name_of(base)), off, []
