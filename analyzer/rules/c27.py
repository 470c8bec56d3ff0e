"""C27: the marks of matrix nodes (symmetric, identity)."""
import llvmir
import nodes
from common import *
from ops import *
from rules.opsrun import parallel, file_events

P_ = A[1]
SYM, IDE = 'symmetric', 'identity'
SETTERS = {'dd::mNode::setIdentity': IDE, 'dd::mNode::setSymmetric': SYM}
GETTERS = {'dd::mNode::isIdentity': (IDE, 16), 'dd::mNode::isSymmetric': (SYM, 32)}


def cut(s, d):
    return is_primitive(s, d) or s in SETTERS or s.endswith('::makeDDNode')


class MarkRun(BodyRun):
    """the function that marks a node: every path sets each mark exactly if the successors of the node warrant it"""
    may_write_operand = False

    def __init__(self, ctx, lib, heads, lay, sink):
        self.ctx, self.lib, self.heads, self.lay, self.sink = ctx, lib, heads, lay, sink
        self.name = 'marks of a matrix node'
        self.operands, self.tab_operands, self.nodes, self.bases = {P_}, {P_}, [], []
        self.ex, self.tables = (), set()
        self.T = lib.terms['dd::mNode']
        self.lv = mk('arg', 'level')
        self.head = self

    any_levels = False

    def analyse(self, fname):
        fn = self.lib.m.fn(fname)
        cl = DClient(self.lib, self, self.heads, self.sink)
        eng = Engine(fn, cl, self.lib.m.statics, mem={(P_, self.lay['v']): (1, self.lv)})
        cl.eng = eng
        eng.run()
        self.ctx.ran(eng)
        if not cl.nret:
            raise AnalysisError('no path of %s returns' % fname)

    def leaf(self, eng, st):
        return eng.decide(st, mk('icmp', 'eq', self.lv, ci(8, -1), 8))

    def equalities(self, cl, eng, st):
        return ()

    def implied(self, cl, eng, st, a):
        if a[0] == 'peq' and P_ in a[1:3] and self.T in a[1:3]:
            return self.leaf(eng, st)
        # successors are at the level below, or zero terminals; at level 0 they are terminals
        return None

    def feasible(self, cl, eng, st, a, val):
        if a[0] == 'peq' and P_ in a[1:3] and self.T in a[1:3]:
            return eng.add_atom(st, eng.norm_cmp('eq', self.lv, ci(8, -1), 8), val)
        return True

    def level(self, cl, st, p):
        if p in TERMINALS:
            return None
        if p.k == 'nd':
            return FR[p.a[0]][2]
        return t_add(8, self.lv, ONE8, -1) if p.k == 'load' and pbase(p.a[0]) is P_ else None

    def rlevel(self, *a):
        return None

    def call(self, cl, eng, st, inst, short, full, args):
        if short in SETTERS:
            what = SETTERS[short]
            if args[0] is not P_:
                cl.bad('mark', self.name + ': no other node is marked', st, inst, 'the node %s is marked' % show(args[0]))
                return []
            out = []
            for s, b in eng.split(st, args[1]):
                cl.check('mark', self.name + ': terminals keep their marks', self.leaf(eng, s) is False, s, inst, 'the marks of a node that may be the terminal are changed')
                s.c = s.c.add_event(('set', what, b))
                out.append(s)
            return out
        if short in GETTERS and args[0] is P_:
            last = [e for e in st.c.ev if e[0] == 'set' and e[1] == GETTERS[short][0]]
            st.env[inst.id] = ci(1, last[-1][2] if last else 0)
            return True
        if short in GETTERS:
            if self.leaf(eng, st) is not False:
                cl.check('mark', self.name + ': terminals keep their marks', False, st, inst, 'a successor of a node that may be the terminal is used')
                return []
            st.env[inst.id] = TRUE if args[0] is self.T else mk('same', 'sym' if GETTERS[short][0] is SYM else 'id', args[0])
            return True
        return BodyRun.call(self, cl, eng, st, inst, short, full, args)

    def extra_call(self, *a):
        return None

    def ret(self, cl, eng, st, inst, val):
        if cl.contradiction(eng, st):
            return
        fin = {SYM: False, IDE: False}      # new nodes have no marks (C30); the marks of a node that was there before are right by induction
        for e in st.c.ev:
            if e[0] == 'set':
                fin[e[1]] = e[2]
        if self.leaf(eng, st) is True:
            cl.good('mark', self.name + ': terminals keep their marks')
            return
        e = [cl.edge(eng, st, aspval(ptr(P_, self.lay['e'] + 24 * k))) for k in range(4)]
        kn = cl.known(eng, st)

        def fact(tag, k):
            return True if e[k][0] is self.T else eng.decide(st, mk('same', tag, e[k][0]))

        cross = self.agree(cl, eng, st, e, kn)
        zero = [eng.decide(st, cl.ez(st, e[k][1:])) for k in (1, 2)]
        ones = [eng.decide(st, cl.eo(st, e[k][1:])) for k in (0, 3)]
        sym, ide = [fact('sym', k) for k in (0, 3)], [fact('id', k) for k in (0, 3)]
        # a mark for identity implies the one for symmetry, and is refuted with it
        sym_ok = sym == [True, True] and (cross or zero == [True, True])
        differ = self.differ(cl, eng, st, e) or (True in zero and False in zero)
        not_sym = False in sym or differ
        ide_ok = ide == [True, True] and ones == [True, True] and zero == [True, True]
        not_ide = not_sym or False in ide or False in ones or False in zero
        cl.check('mark', self.name + ': symmetric exactly if the diagonal successors are and the others are transposes of each other',
                 sym_ok if fin[SYM] else not_sym, st, inst,
                 'a node is marked symmetric although it is not known that its diagonal successors are and the others are transposes of each other' if fin[SYM] else
                 'a node is not marked symmetric although nothing is known that keeps it from being so')
        cl.check('mark', self.name + ': identity exactly if the diagonal successors are, with weight one, and the others are zero',
                 ide_ok if fin[IDE] else not_ide, st, inst,
                 'a node is marked as identity although this is not known of it' if fin[IDE] else
                 'a node is not marked as identity although nothing is known that keeps it from being so')

    def agree(self, cl, eng, st, e, kn):
        """is it known that successor 2 is the transpose of successor 1, or the other way round?"""
        for k, o in ((1, 2), (2, 1)):
            z, v = (cl.zval(st, e[x][1:]) for x in (k, o))
            for j, fr in enumerate(FR):
                if fr[0] == 'call' and not z.zero() and fr[1] == z * op_atom('Tr', (e[k][0],)) and eng.decide(st, mk('pcmp', 'eq', mk('nd', j), e[o][0])) is True \
                        and cl.same(kn, fweight(j), v):
                    return True
        return False

    def differ(self, cl, eng, st, e):
        """is it known that successor 2 is not the transpose of successor 1?  (as edges: other node or other weight)"""
        for k, o in ((1, 2), (2, 1)):
            for j, fr in enumerate(FR):
                if fr[0] != 'call':
                    continue
                z = cl.zval(st, e[k][1:])
                if z.zero() or fr[1] != z * op_atom('Tr', (e[k][0],)):
                    continue
                w = fweight(j)
                v = cl.zval(st, e[o][1:])
                tests = [mk('pcmp', 'eq', mk('nd', j), e[o][0]), cl.azv(w - v), cl.azv(v - w), cl.eqc(st, (cl.tblc(w.r), cl.tblc(w.i)), e[o][1:])]
                tests += [cl.zp(w.r - v.r), cl.zp(w.i - v.i), cl.zp(v.r - w.r), cl.zp(v.i - w.i)]
                if any(eng.decide(st, t) is False for t in tests):
                    return True
            if eng.decide(st, cl.ez(st, e[k][1:])) is True:
                # the transpose of zero is zero
                tests = [cl.ez(st, e[o][1:]), mk('pcmp', 'eq', e[o][0], self.T)]
                v = cl.zval(st, e[o][1:])
                tests += [cl.azv(v), cl.zp(v.r), cl.zp(v.i), cl.azv(Z(0) - v), cl.zp(Z(0).r - v.r), cl.zp(Z(0).i - v.i)]
                if any(eng.decide(st, t) is False for t in tests):
                    return True
        return False


def bit(t, k, a0, old):
    """bit k of term t, where a0 (i1) is the argument and old the flags before: 0, 1, 'arg', 'old' or None"""
    if t.k == 'i':
        return (t.a[1] >> k) & 1
    if t is old:
        return 'old'
    if t is a0:
        return 'arg' if k == 0 else 0
    if t.k in ('trunc', 'zext', 'sext'):
        w, x = t.a[1], [y for y in t.a if isinstance(y, T)][-1]
        if t.k == 'trunc' or k < w:
            return bit(x, k, a0, old)
        return 0 if t.k == 'zext' else bit(x, w - 1, a0, old)
    if t.k in ('and', 'or', 'bvand', 'bvor', 'iand', 'ior'):
        xs = [bit(x, k, a0, old) for x in t.a if isinstance(x, T)]
        z = 0 if t.k.endswith('and') else 1
        if z in xs:
            return z
        xs = [x for x in xs if x != 1 - z]
        return (1 - z) if not xs else (xs[0] if len(set(map(str, xs))) == 1 else None)
    return None


class BitClient(Client):
    initial = ()

    def __init__(self):
        self.finals = []

    def ret(self, eng, st, inst, val):
        self.finals.append((st.copy(), val))


def accessors(ctx, m, lay):
    off = lay['flags']
    cell = mk('load', ptr(A[0], off), None)
    for name, (what, b) in GETTERS.items():
        fs = ['n_' + name.split('::')[-1]]
        cl = BitClient()
        eng = Engine(m.fn(fs[0]), cl, m.statics)
        eng.run()
        ctx.ran(eng)
        for st, val in cl.finals:
            ok = val is not None and is_bit(val, b, cell)
            ctx.ob('%s answers the mark' % name, ok, 'the answer is %s' % show(val), m.fn(fs[0]).name, [])
    for name, what in SETTERS.items():
        fs = ['n_' + name.split('::')[-1]]
        b = {IDE: 16, SYM: 32}[what]
        cl = BitClient()
        eng = Engine(m.fn(fs[0]), cl, m.statics)
        eng.run()
        ctx.ran(eng)
        for st, val in cl.finals:
            d = eng.decide(st, A[1])
            t = eng.load(st, aspval(ptr(A[0], off)), 1, 'i8')
            for k in range(8):
                x = bit(t, k, A[1], cell)
                want = ('arg', 1 if d else (0 if d is False else 'arg')) if 1 << k == b else ('old',)
                ctx.ob('%s sets its own mark only' % name, x in want and (d is None or x == want[-1] or x == 'arg'), 'bit %d becomes %s' % (k, x), m.fn(fs[0]).name, [])


def is_bit(val, b, cell):
    """val (i1) is true exactly if bit b of the flags is set"""
    k = b.bit_length() - 1
    neg = False
    while val.k == 'not':
        val, neg = val.a[0], not neg
    if val.k == 'icmp' and val.a[0] in ('eq', 'ne') and ci(val.a[3], 0) in (val.a[1], val.a[2]):
        x = val.a[2] if val.a[1] is ci(val.a[3], 0) else val.a[1]
        bits = [bit(x, j, None, cell) for j in range(8)]
        return bits == ['old' if j == k else 0 for j in range(8)] and (val.a[0] == 'ne') != neg
    if val.k == 'icmp' and val.a[0] in ('eq', 'ne') and ci(val.a[3], b) in (val.a[1], val.a[2]):
        x = val.a[2] if val.a[1] is ci(val.a[3], b) else val.a[1]
        bits = [bit(x, j, None, cell) for j in range(8)]
        return bits == ['old' if j == k else 0 for j in range(8)] and (val.a[0] == 'eq') != neg
    if val.k == 'trunc':
        x = val.a[2]
        if x.k in ('ilshr', 'lshr', 'iashr', 'ashr'):
            ys = [y for y in x.a if isinstance(y, T)]
            return len(ys) == 2 and ys[1].k == 'i' and bit(ys[0], ys[1].a[1], None, cell) == 'old' and ys[1].a[1] == k and not neg
    return False


def reaches(cg, n, goals, but):
    seen, work = set(), [n]
    while work:
        x = work.pop()
        if x in goals:
            return True
        if x in seen or x in but:
            continue
        seen.add(x)
        work += cg.get(x, ())
    return False


def check(ctx):
    ctx.rule('Every path of the function that marks nodes sets each mark exactly if the facts known on the path warrant it (the transpose replaced by its contract); new nodes are marked before they are returned; marks are set nowhere else.')
    ctx.assume = ['transposition (C17)', 'node construction (C30)']
    raw = llvmir.Module(ctx.ir())
    lay = ctx.di().layout('mNode')
    # who sets marks
    setters = {n for s in SETTERS for n in raw.find(lambda a, d: a == s)}
    ctx.require('setters', len(setters), 2)
    raw.heads('e_makeDDNode_m')
    cg = raw._cg
    builders = [n for n in raw.find(lambda a, d: a.endswith('::makeDDNode') and '<dd::mNode>' in d)]
    callers = sorted(c for n in builders for c in cg.get(n, ()) if reaches(cg, c, setters, ()))
    ctx.require('functions that determine the marks of new nodes', len(callers), 1)
    others = sorted(n for n in cg if n[:2] in ('e_', 'g_', 'x_', 'o_', 't_') and reaches(cg, n, setters, callers))
    ctx.ob('marks are set for new nodes only', not others, 'marks are also set on the way from ' + ', '.join(others[:5]), 'harness/driver.cpp', [])
    acc = ctx.module(['e_makeDDNode_m'] + ['n_' + g.split('::')[-1] for g in list(GETTERS) + list(SETTERS)], lambda s, d: False)
    accessors(ctx, acc, lay)
    # terminals are symmetric and identities
    for n in acc.statics:
        if acc.dname(n) == 'dd::mNode::terminalNode':
            v = acc.statics[n].get(lay['flags'])
            ctx.ob('the terminal is symmetric and an identity', v is not None and v.k == 'i' and v.a[1] & 48 == 48, 'the flags of the terminal are %s' % (show(v) if v is not None else 'unknown'), 'include/dd/Node.hpp', [])
            break
    else:
        raise AnalysisError('the terminal matrix node was not found')
    short = llvmir.strip_templates(raw.dname(callers[0]))
    m = ctx.module(['e_makeDDNode_m', 'e_transpose', 'e_conjugateTranspose'],
                   lambda s, d: is_primitive(s, d) or s in SETTERS or s == short or s.split('::')[-1] in ('makeDDNode', 'transpose', 'conjugateTranspose'))
    lib = Lib(ctx, m)
    heads = {n: c(lib, n) for k, c in (('transpose', Transpose), ('conjugateTranspose', ConjTranspose)) for n in raw.find(lambda s, d: s.endswith('::' + k) and 'dd::Package' in d and 'dd::mNode' in d)}
    jobs = [(short, lambda sink: MarkRun(ctx, lib, heads, lay, sink).analyse(callers[0]))] + nodes.jobs(ctx, ('m',))
    file_events(ctx, parallel(ctx, jobs), {'mark'})
