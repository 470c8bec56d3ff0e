"""C29: marked edges of density matrices: entering and leaving nodes, products, application of operations."""
import llvmir
from common import *
from absint import *
from loops import *
from ops import *
from rules.opsrun import parallel, file_events

DM = {'dd::dNode::applyDmChangesToNode': 'apply', 'dd::dNode::revertDmChangesToNode': 'revert'}
N = mk('heapobj', 'node')
P = [mk('heapobj', 'successor', j) for j in range(4)]
CONJ, FIRST, DENS = 1, 2, 4


# ---------------------------------------------------------------------------------------------- nodes
class NodeClient(LogClient):
    log_stores = False

    def __init__(self):
        super().__init__()
        self.fin = []

    def ret(self, eng, st, inst, val):
        self.fin.append((st.copy(), eng.trace(st)))

    def implied(self, eng, st, a):
        if a[0] == 'peq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y.k == 'glob' and tag_bits(x)[0].k == 'arg' and tag_bits(x)[1][0] == 'f':
                    return False        # components are never a negated zero
        return None


def wanted(flags, zero):
    """successors [(index of the stored one, marks)] a node has when entered with the marks; conjugated ones have their imaginary part negated"""
    if flags & CONJ:
        return [(j, CONJ | DENS, True) for j in (0, 2, 1, 3)]
    if flags & FIRST:
        return [(j, 0, False) for j in range(4)]
    return [(0, DENS, False), (1, DENS | FIRST, False), (2, DENS | CONJ, True), (3, DENS, False)]


def node_mem(lay, flags, fl, ps):
    mem = {(A[0], 0): (8, aspval(ptr(N, flags))), (N, lay['v']): (1, mk('arg', 'level')), (N, lay['flags']): (1, ci(8, fl))}
    for j in range(4):
        mem[(N, 24 * j)] = (8, ps[j])
        mem[(N, 24 * j + 8)] = (8, mk('arg', 're', j))
        mem[(N, 24 * j + 16)] = (8, mk('arg', 'im', j))
    return mem


def successors(term):
    """which successors are the same node, and which are the terminal"""
    parts = [()]
    for j in range(4):
        parts = [p + (k,) for p in parts for k in range(max(p, default=-1) + 2)]
    for p in parts:
        for t in [None] + sorted(set(p)):
            yield [term if k == t else P[k] for k in p]


def state_of(eng, st, lay):
    es = [tuple(eng.load(st, ptr(N, 24 * j + o), 8) for o in (0, 8, 16)) for j in range(4)]
    return aspval(eng.load(st, ptr(A[0], 0), 8)), es, eng.load(st, ptr(N, lay['flags']), 1)


def others_written(st, lay):
    ok = set()
    for j in range(4):
        ok |= {24 * j, 24 * j + 8, 24 * j + 16}
    return [(b, o) for (b, o), (sz, v) in st.mem.items() if b is N and o not in ok | {lay['v'], lay['flags']} or b in P or b.k == 'glob']


def check_nodes(ctx, di, m, zero):
    lay = di.layout('dNode')
    if tuple(n for n in ('v', 'flags') if n not in lay):
        raise AnalysisError('level or flags of density-matrix nodes not found')
    statics = m.statics
    term = [mk('glob', n) for n in statics if m.dname(n) == 'dd::dNode::terminalNode']
    ctx.require('the terminal of density matrices', len(term), 1)
    term = term[0]
    for flags in range(8):
        for ps, up in [(P, up) for up in range(0, 256, 8)] + [(ps, 8) for ps in successors(term)]:
            for what in ('apply', 'round'):
                if what == 'round' and flags and not flags & DENS:
                    continue            # not entered: nothing to leave
                cl = NodeClient()
                eng = Engine(m.fn('d_' + what), cl, statics, mem=node_mem(lay, flags, up, ps)).run()
                ctx.ran(eng)
                tag = 'entering a node' if what == 'apply' else 'entering and leaving a node'
                where = 'marks %d, flags of the node %d' % (flags, up)
                if ps is not P:
                    where += ', successors ' + ' '.join('terminal' if p is term else 'n%d' % P.index(p) for p in ps)
                if not cl.fin:
                    raise AnalysisError('%s does not return (%s)' % (tag, where))
                for st, tr in cl.fin:
                    p, es, f = state_of(eng, st, lay)
                    # stores of other widths or elsewhere
                    ctx.ob('%s: nothing but the node\'s successors and flags is written' % tag, not others_written(st, lay), 'other memory is written (%s)' % where, where, tr)
                    leaf = eng.decide(st, mk('icmp', 'sle', mk('arg', 'level'), ci(8, -1), 8)) is True
                    entered = flags & DENS
                    wp = N if entered else aspval(ptr(N, flags))
                    ctx.ob('%s: the pointer is freed of its marks exactly if it is marked as a density matrix' % tag, p is wp, 'the pointer is %s (%s)' % (show(p), where), where, tr)
                    if what == 'round' or leaf or not entered:
                        wf, we = up, [(j, 0, False) for j in range(4)]
                    else:
                        wf, we = up | flags, wanted(flags, zero)
                    ok = f.k == 'i' and f.a[1] & 255 == wf
                    ctx.ob('%s: flags of the node' % tag, ok, 'they are %s instead of %d (%s)' % (show(f), wf, where), where, tr)
                    for k, (j, mk_, cj) in enumerate(we):
                        q, r, i = es[k]
                        ctx.ob('%s: node and marks of the successors' % tag, aspval(q) in (aspval(ptr(ps[j], mk_)), ps[j] if ps[j] is term else None), 'successor %d points to %s (%s)' % (k, show(q), where), where, tr)
                        ctx.ob('%s: real parts of the successors' % tag, r is mk('arg', 're', j), 'the real part of successor %d is %s (%s)' % (k, show(r), where), where, tr)
                        im = mk('arg', 'im', j)
                        isz = eng.decide(st, mk('pcmp', 'eq', im, zero))
                        good = i is (im if not cj else (tag_ptr(im, 'fkk') if isz is not True else im)) or (isz is True and i in (im, zero))
                        ctx.ob('%s: imaginary parts of the successors' % tag, good, 'the imaginary part of successor %d is %s (%s)' % (k, show(i), where), where, tr)
    # a node that has not been entered is left alone
    for fl in [x for x in range(256) if not x & DENS]:
        cl = NodeClient()
        eng = Engine(m.fn('d_revert'), cl, statics, mem=node_mem(lay, 0, fl, P)).run()
        ctx.ran(eng)
        for st, tr in cl.fin:
            p, es, f = state_of(eng, st, lay)
            same = aspval(p) is N and f.k == 'i' and f.a[1] & 255 == fl and all(es[j] == (P[j], mk('arg', 're', j), mk('arg', 'im', j)) for j in range(4)) and not others_written(st, lay)
            ctx.ob('leaving a node that was not entered changes nothing', same, 'something is changed (flags of the node %d)' % fl, 'flags %d' % fl, tr)


# ---------------------------------------------------------------------------------------------- products
VIEWS = ptr(mk('views'), 0)
KIND = {'M': (), 'Md': ('density',)}


def view(p):
    return p if p.k in ('nd', 'view') or p in TERMINALS else mk('view', p)


def unview(p):
    return p.a[0] if p.k == 'view' else p


class DRun(BodyRun):
    """typestate of the nodes entered; between entering and leaving, a node is a value of its own"""
    marked = True

    def inside(self, eng, st):
        t = eng.load(st, VIEWS, 8)
        return list(t.a) if t.k == 'in' else []

    def dm(self, cl, eng, st, inst, what, cell):
        p = aspval(eng.load(st, as_ptr(cell), 8, 'ptr'))
        if what == 'apply':
            if p.k == 'view' or p.k == 'nd' or p in TERMINALS or not self.marked:
                return True         # new nodes are not marked
            v = view(p)
            ins = self.inside(eng, st)
            cl.check('marks', '%s: a node is entered once at a time' % self.name, v not in ins, st, inst, 'the same edge is entered again before it is left')
            eng.store(st, as_ptr(cell), v, 8)
            eng.store(st, VIEWS, mk('in', *(ins + [v])), 8)
        else:
            ins = [x for x in self.inside(eng, st) if x is not p]
            eng.store(st, VIEWS, mk('in', *ins), 8)
        return True

    def call(self, cl, eng, st, inst, short, full, args):
        if short in DM:
            return self.dm(cl, eng, st, inst, DM[short], args[0])
        h = self.heads.get(inst.callee)
        if h is not None:
            for j in h.eargs:
                p = cl.edge(eng, st, args[h.argpos(j)])[0]
                if p.k == 'view':
                    cl.check('marks', '%s: nodes are used only while they are entered' % self.name, p in self.inside(eng, st), st, inst, 'a node is used after it was left')
                elif self.marked and p.k == 'load' and p not in self.nodes:
                    cl.check('marks', '%s: successors are entered before they are used' % self.name, False, st, inst, 'the edge %s is handed on without its marks being heeded' % show(p))
        if short.endswith('::makeDDNode') and len(args) > 5:
            g, w = args[5], self.ex[2] if len(self.ex) > 2 else ci(1, 0)
            ok = g.k == 'i' and w.k == 'i' and (g.a[1] != 0) == (w.a[1] != 0)
            cl.check('sem', '%s: new nodes are flagged as density matrices exactly when one is asked for' % self.name, ok, st, inst, 'the flag handed to makeDDNode is %s' % show(g))
        return BodyRun.call(self, cl, eng, st, inst, short, full, args)

    def level(self, cl, st, p):
        return BodyRun.level(self, cl, st, unview(p))

    def implied(self, cl, eng, st, a):
        if a[0] == 'peq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y in TERMINALS and x.k in ('view', 'load'):
                    z = unview(x)
                    same = [z, mk('view', z)]
                    if z in self.nodes and len({id(self.node_level(k)) for k in range(len(self.nodes))}) == 1:
                        same += [t for n in self.nodes if n is not z for t in (n, mk('view', n))]      # terminal together
                    for t in same:
                        n = None if t is x else eng.norm_pcmp('eq', t, y)
                        v = st.facts.get(('peq', n[1], n[2])) if n not in (True, False, None) else n
                        if v is not None:
                            return v
                    if x.k == 'view' and z in self.nodes:
                        return BodyRun.implied(self, cl, eng, st, eng.norm_pcmp('eq', z, y))
        return BodyRun.implied(self, cl, eng, st, a)

    def operand(self, cl, eng, st, k):
        e = cl.edge(eng, st, self.bases[k])
        return e[0], cl.zval(st, e[1:])

    def ret(self, cl, eng, st, inst, val):
        ins = self.inside(eng, st)
        cl.check('marks', '%s: every node entered is left' % self.name, not ins, st, inst, 'on return %d node(s) have not been left: %s' % (len(ins), ', '.join(map(show, ins))))
        for k, b in enumerate(self.bases):
            cl.check('marks', '%s: the edges given keep their marks' % self.name, cl.edge(eng, st, b)[0] is self.nodes[k], st, inst, 'the pointer of operand %d is changed' % k)
        return BodyRun.ret(self, cl, eng, st, inst, val)


class DAdd(Add):
    def make_run(self, ctx, heads):
        r = DRun(self, ctx, heads)
        r.marked = False            # sums are formed of unmarked edges
        return r


class DMul(Mul):
    """multiply2(x, y, var, start, density): the nodes of the operands have been entered"""
    gen = None

    def __init__(self, lib, name):
        Mul.__init__(self, lib, name)
        self.gs = [j for j, p in enumerate(self.ps) if p == 'bool']
        if len(self.gs) != 1:
            raise AnalysisError('product of density matrices: arguments not recognised in ' + self.full[:120])

    def extra(self, args):
        return tuple(args[self.argpos(j)] for j in self.qs + self.gs)

    def kindof(self, ex):
        g = ex[2]
        if g.k != 'i':
            return None
        return 'Md' if g.a[1] else 'M'

    def expr(self, cl, st, ops, ex, kind=None):
        (p, z), (q, w) = ops
        if z.zero() or w.zero():
            return Z(0)
        return z * w * op_atom('M', (p, q), KIND[kind or self.kindof(ex)])

    def succ(self, cl, eng, st, ops, ex):
        (p, z), (q, w) = ops
        dens = self.kindof(ex) == 'Md'

        def block(i, j, kind):
            t = Z(0)
            for k in range(2):
                a = cl.edge(eng, st, aspval(ptr(p, 24 * (2 * i + k))))
                b = cl.edge(eng, st, aspval(ptr(q, 24 * (2 * k + j))))
                t = t + self.expr(cl, st, [(view(a[0]), cl.zval(st, a[1:])), (view(b[0]), cl.zval(st, b[1:]))], ex, kind)
            return z * w * t
        if dens:
            return [block(0, 0, 'Md'), block(0, 1, 'M'), block(0, 1, 'M'), block(1, 1, 'Md')]
        return [block(i, j, 'M') for i in range(2) for j in range(2)]

    def pre(self, run, cl, eng, st, ops, ex, args):
        if self.kindof(ex) is None:
            return 'whether a density matrix is asked for is not known'
        return Mul.pre(self, run, cl, eng, st, ops, ex[:2], args)

    def contract(self, run, cl, eng, st, inst, full, args):
        ex = self.extra(args)
        if self.kindof(ex) is None:
            out = []
            pos = self.argpos(self.gs[0])
            for s, c in eng.split(st, args[pos]):
                a = list(args)
                a[pos] = ci(1, 1 if c else 0)
                out += Mul.contract(self, run, cl, eng, s, inst, full, a) or []
            return out
        return Mul.contract(self, run, cl, eng, st, inst, full, args)

    def memo(self, run, cl, eng, st, inst, n, full, args):
        if n == 'lookup':
            g = args[4] if len(args) > 4 else None
            ok = g is not None and g.k == 'i' and (g.a[1] != 0) == (self.gen != 0)
            cl.check('sem', '%s: the memo table is asked for the kind of matrix asked for' % run.name, ok, st, inst, 'it is asked for %s' % (show(g) if g is not None else 'nothing'))
            args = args[:4]
        return Mul.memo(self, run, cl, eng, st, inst, n, full, args)

    def terminal(self, run, cl, eng, st, x):
        var, start = run.ex[:2]
        for w in (32, 8, 64):
            a, b = (var, start) if w == 8 else (t_cast('sext', w, var, 8), t_cast('sext', w, start, 8))
            r = eng.decide(st, mk('icmp', 'eq', a, t_add(w, b, ci(w, 1), -1), w))
            if r is not None:
                return r
        return None

    def body_args(self, run):
        a = list(A[:self.first + len(self.ps)])
        a[self.argpos(self.gs[0])] = ci(1, self.gen)
        return a

    def make_run(self, ctx, heads):
        r = DRun(self, ctx, heads)
        r.ex = r.ex[:2] + (ci(1, self.gen),)
        r.name += ', a density matrix asked for' if self.gen else ', a matrix asked for'
        return r


class DMulPublic(MulPublic):
    gen = None

    def extra(self, args):
        g = [j for j, p in enumerate(self.ps) if p == 'bool']
        if len(g) != 1:
            raise AnalysisError('product of density matrices: arguments not recognised in ' + self.full[:120])
        self.gpos = self.argpos(g[0])
        return MulPublic.extra(self, args) + (args[self.gpos],)

    def expr(self, cl, st, ops, ex):
        (p, z), (q, w) = ops
        if z.zero() or w.zero():
            return Z(0)
        return z * w * op_atom('M', (view(p), view(q)), KIND['Md' if self.gen else 'M'])

    def body_args(self, run):
        a = MulPublic.body_args(self, run) or list(A[:self.first + len(self.ps)])
        a[self.gpos] = ci(1, self.gen)
        return a

    def body_mem(self, run):
        mem = MulPublic.body_mem(self, run)
        for k, p in enumerate(run.nodes):
            mem[(view(p), self.lib.voffs[self.nts[k]])] = mem.pop((p, self.lib.voffs[self.nts[k]]))
        return mem

    def make_run(self, ctx, heads):
        r = DRun(self, ctx, heads)
        r.ex = (None, ci(8, 0) if self.zero_start else r.ex[1], ci(1, self.gen))
        if not self.zero_start:
            r.start_nonterminal = True
        r.name += (', from level 0' if self.zero_start else ', from any level') + (', a density matrix asked for' if self.gen else ', a matrix asked for')
        return r


class DMulPublicAt(DMulPublic):
    zero_start = False


# ---------------------------------------------------------------------------------------------- applying an operation
class ApplyClient(NodeClient):
    """what is multiplied with what"""

    def edge(self, eng, st, addr):
        a = as_ptr(addr)
        return tuple(aspval(eng.load(st, aspval(ptr(a.a[0], a.a[1] + o)), 8, 'ptr')) for o in (0, 8, 16))

    def put(self, eng, st, addr, tag):
        a = as_ptr(addr)
        e = (mk('heapobj', tag), mk('arg', tag, 're'), mk('arg', tag, 'im'))
        for o, t in zip((0, 8, 16), e):
            eng.store(st, aspval(ptr(a.a[0], a.a[1] + o)), t, 8)
        return e

    def readonly(self, eng, short):
        return False

    def call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if not short.startswith('dd::'):
            return None
        k = len(st.c[0])
        if n == 'conjugateTranspose':
            x = self.edge(eng, st, args[2])
            self.event(st, ('adjoint', x, self.put(eng, st, args[0], 'res%d' % k)))
            return True
        if n == 'multiply':
            x, y = self.edge(eng, st, args[2]), self.edge(eng, st, args[3])
            self.event(st, ('multiply', x, y, args[4], args[5] if len(args) > 5 else None, self.put(eng, st, args[0], 'res%d' % k)))
            return True
        if n in ('incRef', 'decRef'):
            self.event(st, (n, self.edge(eng, st, args[1])))
            return True
        if n in ('cacheCount', 'size', 'count'):
            st.env[inst.id] = eng.fresh(st, inst)
            return True
        self.event(st, ('other', n))
        return True


def check_apply(ctx, m):
    what = 'applying an operation'
    for g in (0, 1):
        cl = ApplyClient()
        a = list(A[:5])
        a[4] = ci(1, g)
        eng = Engine(m.fn('e_applyOperationToDensity'), cl, m.statics, args=a).run()
        ctx.ran(eng)
        e0 = (mk('load', ptr(A[2], 0), None), mk('load', ptr(A[2], 8), None), mk('load', ptr(A[2], 16), None))
        o0 = tuple(mk('load', ptr(A[3], o), None) for o in (0, 8, 16))
        tag = what + (' to get a density matrix' if g else ' to get a matrix')
        if not cl.fin:
            raise AnalysisError('%s: no path returns' % tag)
        for st, tr in cl.fin:
            val = {e0: ('rho',), o0: ('U',)}
            kinds = {}
            refs = []
            why = None
            for ev in st.c[0]:
                if ev[0] == 'adjoint':
                    if val.get(ev[1]) != ('U',):
                        why = 'something else than the operation is adjoined'
                    val[ev[2]] = ('U+',)
                elif ev[0] == 'multiply':
                    x, y = val.get(ev[1]), val.get(ev[2])
                    if x is None or y is None:
                        why = why or 'a product is formed of something else than the operation, its adjoint, the density matrix with its marks and products of them'
                    val[ev[5]] = (x or ('?',)) + (y or ('?',))
                    kinds[ev[5]] = ev[4]
                    if not (ev[3].k == 'i' and ev[3].a[1] == 0):
                        why = why or 'a product is formed from another level than 0'
                elif ev[0] in ('incRef', 'decRef'):
                    refs.append(ev)
                elif ev[0] == 'other':
                    why = why or '%s is called' % ev[1]
            ctx.ob(tag + ': only the products of the operation, the density matrix and the adjoint are formed', why is None, why, tag, tr)
            res = [e for e, v in val.items() if v == ('U', 'rho', 'U+')]
            if not ctx.ob(tag + ': the product of the operation, the density matrix and the adjoint is formed', len(res) == 1, 'the products formed are %s' % sorted(val.values()), tag, tr):
                continue
            res = res[0]
            for e, k in kinds.items():
                ok = k is not None and k.k == 'i' and (k.a[1] != 0) == (bool(g) if e == res else False)
                ctx.ob(tag + ': only the last product may be formed as a density matrix, exactly if one is asked for', ok,
                       'the %s product is asked for with %s' % ('last' if e == res else 'first', show(k) if k is not None else 'nothing'), tag, tr)
            inc = [e[1] for e in refs if e[0] == 'incRef']
            dec = [e[1] for e in refs if e[0] == 'decRef']
            plain = lambda e: (aspval(tag_ptr(tag_bits(as_ptr(e[0]))[0], '000')) if e[0].k != 'heapobj' else e[0],) + e[1:]
            ctx.ob(tag + ': the result is referenced once', inc == [res], 'what is referenced: %s' % [show(e[0]) for e in inc], tag, tr)
            ctx.ob(tag + ': the former density matrix is released once, through the unmarked pointer', dec in ([plain(e0)], ), 'what is released: %s' % [show(e[0]) for e in dec], tag, tr)
            for name, at in (('the edge handed over', A[2]), ('the edge returned', A[0])):
                e = cl.edge(eng, st, at)
                want = aspval(ptr(res[0], DENS if g else 0))
                ctx.ob('%s: %s is the result, marked exactly if a density matrix is asked for' % (tag, name), e == (want,) + res[1:], '%s is %s' % (name, show(e[0])), tag, tr)


# ---------------------------------------------------------------------------------------------- reading
class ReadClient(NodeClient):
    recursive = ()

    def call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if short in DM:
            cell = as_ptr(args[0])
            p = aspval(eng.load(st, cell, 8, 'ptr'))
            if DM[short] == 'apply':
                v = mk('view', p) if p.k != 'view' else p
                eng.store(st, cell, v, 8)
                self.event(st, ('in', v))
            else:
                self.event(st, ('out', p))
            return True
        if short.startswith('dd::'):
            if inst.callee in self.recursive:
                for a in args[1:]:
                    self.event(st, ('read', aspval(eng.load(st, as_ptr(a), 8, 'ptr'))))
                    break
        st.env[inst.id] = eng.fresh(st, inst)
        return True     # numbers and vectors of numbers: nothing of the diagram's nodes


def check_read(ctx, m, recursive):
    for fn in ['x_getDensityMatrix'] + recursive:
        cl = ReadClient()
        cl.recursive = recursive
        eng = Engine(m.fn(fn), cl, m.statics).run()
        ctx.ran(eng)
        top = fn == 'x_getDensityMatrix'
        base = A[2] if top else A[1]
        tag = 'reading a density matrix' if top else 'reading below a node of a density matrix'
        ctx.require(tag + ' paths', len(cl.fin), 1)
        for st, tr in cl.fin:
            ins, why, n = [], None, 0
            for e in st.c[0]:
                if e[0] == 'in':
                    if e[1] in ins:
                        why = why or 'a node is entered again before it is left'
                    ins.append(e[1])
                elif e[0] == 'out' and e[1] in ins:
                    ins.remove(e[1])
                elif e[0] == 'read':
                    n += 1
                    if e[1] not in ins:
                        why = why or 'the recursion is started while the node is not entered'
            ctx.ob(tag + ': nodes are read while they are entered', why is None and (n == 1 or not top), why or '%d recursions are started' % n, tag, tr)
            ctx.ob(tag + ': every node entered is left', not ins, 'on return %d node(s) have not been left: %s' % (len(ins), ', '.join(map(show, ins))), tag, tr)
            if top:
                p0 = mk('load', ptr(A[2], 0), None)
                ctx.ob(tag + ': the edge keeps its marks', aspval(eng.load(st, ptr(A[2], 0), 8)) is p0 and all(eng.load(st, ptr(A[2], o), 8) is mk('load', ptr(A[2], o), None) for o in (8, 16)),
                       'the edge that is read is changed: its pointer is %s afterwards' % show(eng.load(st, ptr(A[2], 0), 8)), tag, tr)


def cut(s, d):
    return is_primitive(s, d) or s.endswith('::makeDDNode') or s.endswith('::garbageCollect') or s in DM


def check(ctx):
    ctx.rule('Entering and leaving a node: exact effect for each of the 8 combinations of marks and each of the flags of the node. '
             'Functions that enter nodes: typestate (entered, used, left) on every path; result of products by polynomials over the successors of the entered nodes. '
             'Applying an operation: value numbering of the products and reference events on every path.')
    ctx.assume = ['at most one operand of a product is marked, and operands do not share entered nodes', 'node construction (C30), memo tables (C06), the adjoint (C17)', 'sums are formed of unmarked edges']
    di = ctx.di()
    m = ctx.module(['d_apply', 'd_revert', 'd_round'])
    zero = None
    for n in m.statics:
        d = m.dname(n)
        if d.startswith('dd::ComplexTable') and d.endswith('::zero'):
            zero = mk('glob', n)
    check_nodes(ctx, di, m, zero)
    m0 = llvmir.Module(ctx.ir())
    readers = list(m0.heads('x_getDensityMatrix'))
    if not readers:
        raise AnalysisError('no recursion is reached from x_getDensityMatrix')
    ma = ctx.module(['e_applyOperationToDensity', 'x_getDensityMatrix'],
                    lambda s, d: s.startswith('dd::Package::') and s.split('::')[-1] in ('multiply', 'conjugateTranspose', 'incRef', 'decRef', 'garbageCollect') or s in DM or
                    is_primitive(s, d) or not s.startswith('dd::') and ('vector' in s.split('(')[0] or 'complex' in s.split('(')[0]))
    check_apply(ctx, ma)
    check_read(ctx, ma, readers)
    jobs = []
    roots = ['e_add_d', 'e_multiply_dd']
    m1 = ctx.module(roots, cut)
    lib = Lib(ctx, m1)

    def one(gen):
        heads = {}
        for r, c in zip(roots, (DAdd, DMul)):
            h = [x for x in m0.heads(r)]
            h = [x for x in h if ('multiply' in m1.dname(x)) == (c is DMul)]
            if len(h) != 1:
                raise AnalysisError('%d recursive functions reached from %s' % (len(h), r))
            heads[h[0]] = c(lib, h[0])
            heads[h[0]].gen = gen
        return heads
    for gen in (0, 1):
        heads = one(gen)
        for h in heads.values():
            if isinstance(h, DAdd) and gen:
                continue
            jobs.append(('%s %d' % (h.fname, gen), (lambda h, heads: lambda sink: [str(h.analyse(ctx, heads, sink).name)])(h, heads)))
        d = m0.direct('e_multiply_dd')
        if len(d) != 1:
            raise AnalysisError('%d functions called by e_multiply_dd' % len(d))
        for pc in (DMulPublic, DMulPublicAt):
            h = pc(lib, 'e_multiply_dd', d[0])
            h.gen = gen
            jobs.append(('multiply %d' % gen, (lambda h, heads: lambda sink: [str(h.analyse(ctx, heads, sink).name)])(h, heads)))
    res = parallel(ctx, jobs)
    file_events(ctx, res, {'marks', 'sem', 'scr', 'tab', 'memo'})

