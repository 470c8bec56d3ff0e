"""Construction functions: which nodes are built, at which levels, from which successors (structural value numbering).
Node construction, identities, number interning and products are replaced by what they are specified to give (C30, C20, C14, C16)."""
from absint import *
from llvmir import AnalysisError
from loops import LogClient
from denote import params

NE = 24     # size of an edge


def edge_type(full):
    i = full.index('dd::Edge<')
    return full[i + 9:full.index('>', i)]


def cut(*but):
    """cut at the primitives of construction except those to be analysed themselves"""
    return lambda s, d: s.startswith('dd::') and s.split('::')[-1] in CUT and s.split('::')[-1] not in but


CUT = {'makeDDNode', 'makeIdent', 'multiply', 'lookup', 'add', 'transpose', 'conjugateTranspose', 'incRef', 'decRef', 'garbageCollect', 'reduceAncillae',
       'kronecker', 'makeGateDD', 'makeTwoQubitGateDD'}


def ilin(t, sub=None):
    """integer value of a term as a linear form over its atoms, widths ignored: (frozenset of (atom, coef), const)
    (sound where the numbers of qubits and levels fit their types, which is a precondition of every builder)"""
    if t.k == 'i':
        v = t.a[1]
        return {}, v
    if t.k in ('trunc', 'sext', 'zext'):
        for x in reversed(t.a):
            if isinstance(x, T):
                return ilin(x, sub)
    if t.k == 'lin':
        p, c = {}, 0
        w = t.a[0]
        for x, k in t.a[1]:
            q, d = ilin(x, sub)
            k = wrap(k, w)
            for y, n in q.items():
                p[y] = p.get(y, 0) + k * n
            c += k * d
        return {x: n for x, n in p.items() if n}, c + wrap(t.a[2], w)
    if sub is not None and t in sub:
        return sub[t]
    return {t: 1}, 0


def lsub(a, b):
    p = dict(a[0])
    for x, n in b[0].items():
        p[x] = p.get(x, 0) - n
    return {x: n for x, n in p.items() if n}, a[1] - b[1]


def leq(a, b):
    return lsub(a, b) == ({}, 0)


def ladd(a, k):
    return a[0], a[1] + k


class BuildClient(LogClient):
    optimistic = True
    log_stores = True

    def __init__(self, lib, cut_set=None):
        super().__init__()
        self.lib = lib
        self.hstates = {}       # header -> state right after widening
        self.entries = {}       # header -> states at entry
        self.nodes = []         # every node made: (state, term, level, children)
        self.stores = []
        self.finals = []        # (state, value) at every return
        self.throws = []        # states that enter a part of the function from which it does not return
        self._doomed = None

    # -- values
    def edge(self, eng, st, addr):
        a = as_ptr(addr)
        return tuple(eng.load(st, aspval(ptr(a.a[0], a.a[1] + o)), 8, 'ptr') for o in (0, 8, 16))

    def put_edge(self, eng, st, addr, e):
        a = as_ptr(addr)
        for o, t in zip((0, 8, 16), e):
            eng.store(st, aspval(ptr(a.a[0], a.a[1] + o)), t, 8)

    def tn(self, v):
        """the stored number for a value"""
        if v.k == 'f':
            if v.a[0] == 0:
                return self.lib.zero
            if v.a[0] == 1:
                return self.lib.one
        return mk('tn', v)

    def made(self, t):
        return (t, mk('nw', t, 0), mk('nw', t, 1))

    def prune(self, eng, st, block):
        if self._doomed is None:
            fn = eng.fn
            live, work = set(), [b for b, k in enumerate(fn.blocks) if k.insts and k.insts[-1].op == 'ret']
            while work:
                b = work.pop()
                if b not in live:
                    live.add(b)
                    work += fn.blocks[b].preds
            self._doomed = {b for b in range(len(fn.blocks)) if b not in live}
        if block in self._doomed:
            self.throws.append(st)
            return False
        return True

    def call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if not short.startswith('dd::'):
            if short == 'std::_Rb_tree_increment':
                st.env[inst.id] = mk('incr', args[0])
                return True
            return None
        f = getattr(self, 'k_' + n, None)
        if f is None:
            raise AnalysisError('no contract for %s called in %s' % (full[:120], eng.fn.where(inst)))
        return f(eng, st, inst, short, full, args)

    def k_makeDDNode(self, eng, st, inst, short, full, args):
        sret, this, v, arr = args[:4]
        nt = edge_type(full)
        k = 2 if 'vNode' in nt else 4
        es = tuple(self.edge(eng, st, aspval(ptr(as_ptr(arr), NE * j))) for j in range(k))
        cached = args[4].k != 'i' or args[4].a[1] != 0
        t = mk('node', v, cached, nt, *[x for e in es for x in e])
        self.effect(st, ('node', t))
        self.nodes.append((st.copy(), t, eng.fn.where(inst), eng.trace(st)))
        self.put_edge(eng, st, sret, self.made(t))
        return True

    def k_makeIdent(self, eng, st, inst, short, full, args):
        ps = params(full)
        if len(ps) == 1:
            lo, hi = ci(8, 0), mk('lin', 8, ((args[2], 1),), -1) if args[2].k != 'i' else ci(8, args[2].a[1] - 1)
        else:
            lo, hi = args[2], args[3]
        t = mk('ident', lo, hi)
        self.put_edge(eng, st, args[0], self.made(t))
        return True

    def k_lookup(self, eng, st, inst, short, full, args):
        if not short.startswith('dd::ComplexNumbers::'):
            raise AnalysisError('no contract for ' + full[:120])
        ps = params(full)
        if len(ps) == 2:
            v = [eng.load(st, a, 8, 'double') if p.endswith('&') else a for p, a in zip(ps, args[1:3])]
        elif 'ComplexValue' in ps[0] or 'std::complex' in ps[0]:
            v = [eng.load(st, aspval(ptr(as_ptr(args[1]), o)), 8, 'double') for o in (0, 8)]
        else:
            raise AnalysisError('no contract for ' + full[:120])
        r = tuple(self.tn(x) for x in v)
        st.env[inst.id] = mk('agg', *r)
        return True

    def tidy(self, st):
        """one form for equal contents of locals: ranges only where no cell overrides them"""
        for b in [b for b in st.rng if b.k == 'alloca']:
            rs = st.rng[b]
            if any((l | n) & 7 for l, n, *_ in rs):
                continue
            have = {}
            for l, n, sb, so, ep in rs:
                for o in range(l, l + n, 8):
                    have[o] = (sb, so + o - l if sb is not None else so, ep)
            for (b2, o), (sz, v) in st.mem.items():
                if b2 is b:
                    for d in range(o & ~7, o + sz, 8):
                        if d >= o and d + 8 <= o + sz:
                            have.pop(d, None)
            out = []
            for o in sorted(have):
                sb, so, ep = have[o]
                if out:
                    l, n, sb2, so2, ep2 = out[-1]
                    if l + n == o and sb is sb2 and ep == ep2 and so == (so2 + n if sb is not None else so2):
                        out[-1] = (l, n + 8, sb2, so2, ep2)
                        continue
                out.append((o, 8, sb, so, ep))
            if out:
                st.rng[b] = tuple(out)
            else:
                del st.rng[b]

    # -- loops
    def loop_entry(self, eng, st, h):
        super().loop_entry(eng, st, h)
        self.entries.setdefault(h, []).append(st.copy())

    def header(self, eng, st, h, back, k):
        super().header(eng, st, h, back, k)
        if k < 0:
            for f in [f for f in st.facts if f[0] == 'fc']:
                del st.facts[f]
            self.hstates.setdefault(h, []).append(st.copy())

    def ret(self, eng, st, inst, val):
        super().ret(eng, st, inst, val)
        self.finals.append((st.copy(), val))

    def children(self, t):
        xs = t.a[3:]
        return [tuple(xs[3 * j:3 * j + 3]) for j in range(len(xs) // 3)]
