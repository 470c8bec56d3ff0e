"""C26: controls and edges are compared as values."""
from common import *
from absint import *
from loops import *
from poly import *
from rules.c25 import ArClient, View, find_tol

A, B = mk('arg', 0), mk('arg', 1)
QA, QB = mk('num', 'qubit a'), mk('num', 'qubit b')


class CtlClient(Client):
    """two qubits in a given order (-1, 0 is modelled by one symbol, 1)"""
    optimistic = True
    initial = ()

    def __init__(self, order):
        self.order = order
        self.finals = []

    def diff(self, d, w):
        """interval of a linear combination of the two qubits (None: not a function of their difference)"""
        p, c = lin_parts(d, w)
        k = {}
        for x, n in p.items():
            n = wrap(n, w)
            if x.k in ('sext', 'zext'):
                if x.k == 'zext':
                    return None
                x = x.a[2]
            if x not in (QA, QB):
                return None
            k[x] = k.get(x, 0) + n
        if k.get(QA, 0) != -k.get(QB, 0):
            return None
        n = k.get(QA, 0)
        lo, hi = (-255, -1) if self.order < 0 else (1, 255)
        a, b = sorted((n * lo, n * hi))
        return a + wrap(c, w), b + wrap(c, w)

    def implied(self, eng, st, atom):
        k = atom[0]
        if k == 'lt' and atom[1] == 's':
            if {atom[2], atom[3]} == {QA, QB}:
                return (self.order < 0) == (atom[2] is QA)
            if atom[4] > 8:
                r = self.diff(t_add(atom[4], atom[2], atom[3], -1), atom[4])
                if r is not None:
                    return True if r[1] < 0 else (False if r[0] >= 0 else None)
        if k == 'req':
            r = self.diff(atom[1], atom[3])
            if r is not None and not r[0] <= wrap(atom[2], atom[3]) <= r[1]:
                return False
        if k in ('rlt', 'rgt') and atom[1] == 's' and atom[4] > 8:
            r = self.diff(atom[2], atom[4])
            if r is not None:
                c = atom[3]
                if k == 'rlt':
                    return True if r[1] < c else (False if r[0] >= c else None)
                return True if r[0] > c else (False if r[1] <= c else None)
        return None

    def ret(self, eng, st, inst, val):
        self.finals.append((st.copy(), val, eng.trace(st)))


def check(ctx):
    ctx.rule('Every comparison is decided on every path for each order of the two qubits and each combination of control types (respectively each outcome of the '
             'comparisons of node and weight parts), and the answer compared with the definition.')
    ctx.assume.append('Qubits are compared as numbers of the width they have; the sign bit convention of the type of qubits is taken from the source.')
    di = ctx.di()
    lay = di.layout('Control')
    oq, ot = lay['qubit'], lay['type']
    kinds = ['v', 'm', 'd']
    eqs = ['ed_%s_%s%s' % (o, s, c) for o in ('eq', 'ne') for s in kinds for c in ('', 'c')]
    terms = ['ed_%s_%s' % (o, s) for o in ('term', 'zero', 'one') for s in kinds]
    makes = ['ed_%s_%s' % (o, s) for o in ('mk', 'mkzero', 'mkone', 'cached') for s in kinds]
    m = ctx.module(['o_less', 'o_eq', 'o_ne', 'o_cmp', 'o_cmp_q1', 'o_cmp_q2', 'o_pc', 'o_nc', 't_approxEq_f'] + eqs + terms + makes)
    # controls
    for order, oname in ((-1, 'lower qubit first'), (0, 'same qubit'), (1, 'higher qubit first')):
        qa, qb = QA, (QA if order == 0 else QB)
        for ta in (0, 1):
            for tb in (0, 1):
                less = order < 0 or order == 0 and ta < tb
                same = order == 0 and ta == tb
                for name, want, args in (
                        ('o_less', less, None), ('o_eq', same, None), ('o_ne', not same, None), ('o_cmp', less, None),
                        ('o_cmp_q1', order < 0, [qa, B]), ('o_cmp_q2', order < 0, [A, qb])):
                    cl = CtlClient(order)
                    mem = {(A, oq): (1, qa), (A, ot): (1, ci(8, ta)), (B, oq): (1, qb), (B, ot): (1, ci(8, tb))}
                    eng = Engine(m.fn(name), cl, m.statics, args=args, mem=mem).run()
                    ctx.ran(eng)
                    ctx.require('results of ' + name, len(cl.finals), 1)
                    for st, val, tr in cl.finals:
                        got = eng.decide(st, val)
                        what = {'o_less': 'operator<', 'o_eq': 'operator==', 'o_ne': 'operator!='}.get(name, 'CompareControl')
                        sg = ('negative', 'positive')
                        ctx.ob('control comparison %s: %s' % (name[2:], oname), got is want,
                               '%s, %s control against %s control: answers %s, must be %s' % (oname, sg[ta], sg[tb], got, want), 'Control.hpp: ' + what, tr)
                        ctx.ob('control comparison %s: changes nothing' % name[2:], not [k for k in st.mem if k[0].k != 'alloca' and st.mem[k] != mem.get(k)],
                               'writes memory', 'Control.hpp: ' + what, tr)
    for name, ty in (('o_pc', 1), ('o_nc', 0)):
        cl = CtlClient(0)
        eng = Engine(m.fn(name), cl, m.statics).run()
        ctx.ran(eng)
        ctx.require('results of ' + name, len(cl.finals), 1)
        for st, val, tr in cl.finals:
            q = eng.load(st, ptr(A, oq), 1, 'i8')
            t = eng.load(st, ptr(A, ot), 1, 'i8')
            ctx.ob('literal %s' % name[1:], q is t_cast('trunc', 8, B, 64) and t.k == 'i' and t.a[1] & 255 == ty,
                   'gives qubit %s, type %s' % (q, t), 'Control.hpp: literals', tr)
    # edges
    off = di.layout('Entry')['value']
    cl = ArClient(off)
    Engine(m.fn('t_approxEq_f'), cl, m.statics).run()
    tols = find_tol(m, cl.finals)
    if not ctx.ob('one tolerance', len(tols) == 1, 'approximate comparison does not use one tolerance', 'ComplexTable::Entry::approximatelyEquals'):
        return
    V = View(m, off, tols.pop())
    el = di.layout('Edge<dd::vNode>')
    op, ow = el['p'], el['w']
    NA, NB = mk('node', 'a'), mk('node', 'b')
    wa, wb = (mk('num', 'a.r'), mk('num', 'a.i')), (mk('num', 'b.r'), mk('num', 'b.i'))

    def glob(suffix):
        g = [n for n in m.statics if m.dname(n).startswith('dd::ComplexTable') and m.dname(n).endswith('::' + suffix)]
        ctx.require('static ' + suffix, len(g), 1)
        return mk('glob', g[0])
    zp, op1 = glob('zero'), glob('one')

    def terminal(s):
        g = [n for n in m.statics if m.dname(n) == 'dd::%sNode::terminalNode' % s]
        ctx.require('terminal ' + s, len(g), 1)
        return mk('glob', g[0])

    def run(name, mem):
        cl = ArClient(off)
        cl.held = {k[0]: (v, mem.get((k[0], ow + 8))) for k, v in mem.items() if k[1] == ow}
        eng = Engine(m.fn(name), cl, m.statics, mem={k: (8, v) for k, v in mem.items()})
        eng.run()
        ctx.ran(eng)
        ctx.require('results of ' + name, len(cl.finals), 1)
        return eng, cl
    for name in eqs + terms:
        what, s = name.split('_')[1:]
        cached = s.endswith('c')
        if cached:
            mem = {(A, op): NA, (B, op): NB}
        else:
            mem = {(A, op): NA, (B, op): NB, (A, ow): wa[0], (A, ow + 8): wa[1], (B, ow): wb[0], (B, ow + 8): wb[1]}
        eng, cl = run(name, mem)

        def peq(st, p, q):
            return eng.decide(st, mk('pcmp', 'eq', p, q))

        def near(st, p, q):
            return True if peq(st, p, q) is True else V.near(eng, st, V.val(st, p), V.val(st, q), m)
        for st, val, tr in cl.finals:
            for s2, t in eng.split(st.copy(), val):
                if what in ('eq', 'ne'):
                    ps = [peq(s2, NA, NB)]
                    if cached:
                        ps += [V.near(eng, s2, poly(mk('load', ptr(A, ow + o), None)), poly(mk('load', ptr(B, ow + o), None)), m) for o in (0, 8)]
                    else:
                        ps += [near(s2, p, q) for p, q in zip(wa, wb)]
                else:
                    ps = [peq(s2, NA, terminal(s))]
                    if what != 'term':
                        ps += [peq(s2, wa[0], op1 if what == 'one' else zp), peq(s2, wa[1], zp)]
                want = False if False in ps else (True if all(p is True for p in ps) else None)
                if what == 'ne' and want is not None:
                    want = not want
                ctx.ob('edge comparison %s' % name[3:], want is not None and bool(t) == want,
                       'answers %s where node, real and imaginary part are known to be %s' % (bool(t), ps), 'Edge.hpp', tr)
                ctx.ob('edge comparison %s: changes nothing' % name[3:], not [k for k in s2.mem if k[0].k != 'alloca' and not (k in mem and s2.mem[k][1] is mem[k])],
                       'writes memory', 'Edge.hpp', tr)
    for name in makes:
        what, s = name.split('_')[1:]
        mem = {}
        if what == 'mk':
            mem = {(B, 0): wb[0], (B, 8): wb[1]}
        elif what == 'cached':
            mem = {(B, op): NB, (B, ow): wb[0], (B, ow + 8): wb[1]}
        eng, cl = run(name, mem)
        for st, val, tr in cl.finals:
            p = eng.load(st, ptr(A, op), 8, 'ptr')
            ty = 'double' if what == 'cached' else 'ptr'
            w = [eng.load(st, ptr(A, ow + o), 8, ty) for o in (0, 8)]
            if what == 'cached':
                ok = p is NB and [V.poly(st, x) for x in w] == [V.val(st, x) for x in wb]
            else:
                want = list(wb) if what == 'mk' else [op1 if what == 'mkone' else zp, zp]
                ok = p is terminal(s) and w == want
            ctx.ob('edge made: %s' % name[3:], ok, 'is (%s, %s)' % (show(p), [show(x) for x in w]), 'Edge.hpp', tr)
