"""C19: two-target gates: which matrix the product of the gates they are composed of is."""
from common import *
from build import *
from poly import *
from loops import *
import denote
from rules.c18 import definitions, matmul, dagger


def is_set(s, d):
    return s.startswith('std::set') or s.startswith('std::_Rb_tree')


def no_controls(s, d):
    """cut at products and at the two ways to build a gate; the shorthands of makeGateDD are part of what is analysed"""
    n = s.split('::')[-1]
    if not s.startswith('dd::'):
        return False
    if n == 'makeGateDD':
        return any('std::set<' in p for p in params(d))
    return n in CUT


class CompClient(BuildClient):
    """gates, products of gates and sets of controls as terms"""
    log_stores = False

    def __init__(self, lib, lay):
        super().__init__(lib)
        self.oq, self.ot = lay['qubit'], lay['type']

    def prune(self, eng, st, block):
        return True

    # -- sets of controls: (base set or None, ((qubit, type), ...))
    def get_set(self, eng, st, addr):
        a = as_ptr(addr)
        if a.a[0].k == 'arg':
            return mk('cset', a.a[0])
        v = eng.load(st, aspval(a), 8, 'ptr')
        return v if v.k == 'cset' else None

    def put_set(self, eng, st, addr, v):
        eng.store(st, aspval(as_ptr(addr)), v, 8)

    def control(self, eng, st, addr):
        a = as_ptr(addr)
        return tuple(eng.load(st, aspval(ptr(a.a[0], a.a[1] + o)), 1, 'i8') for o in (self.oq, self.ot))

    def items(self, v):
        xs = v.a[1:]
        return [(xs[k], xs[k + 1]) for k in range(0, len(xs), 2)]

    def make_set(self, base, items):
        items = sorted(set(items), key=lambda x: (x[0].n, x[1].n))
        return mk('cset', base, *[x for it in items for x in it])

    def set_call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        ps = params(full)
        if n in ('set', '_Rb_tree'):
            if any('initializer_list' in p for p in ps):
                arr, cnt = args[1], args[2]
                if cnt.k != 'i':
                    raise AnalysisError('a set of controls of unknown size is built in ' + eng.fn.where(inst))
                b = as_ptr(arr)
                v = self.make_set(NULL, [self.control(eng, st, aspval(ptr(b.a[0], b.a[1] + 2 * k))) for k in range(cnt.a[1])])
            elif len(args) >= 2 and any('std::set<' in p or '_Rb_tree<' in p for p in ps):
                v = self.get_set(eng, st, args[1])
            else:
                v = mk('cset', NULL)
            self.put_set(eng, st, args[0], v)
            return True
        if n in ('~set', '~_Rb_tree'):
            return True
        if n == 'operator=':
            self.put_set(eng, st, args[0], self.get_set(eng, st, args[1]))
            st.env[inst.id] = args[0]
            return True
        if n in ('insert', 'emplace', '_M_insert_unique', '_M_emplace_unique', 'erase') and len(args) == 2:
            v = self.get_set(eng, st, args[0])
            if v is None:
                raise AnalysisError('unknown set of controls in ' + eng.fn.where(inst))
            its, c = self.items(v), self.control(eng, st, args[1])
            if n == 'erase':
                # a control of the caller's on a target is outside the precondition
                its = [x for x in its if x != c]
            elif c not in its:
                its.append(c)
            self.put_set(eng, st, args[0], self.make_set(v.a[0], its))
            st.env[inst.id] = mk('opaque', inst.id)
            return True
        v = self.get_set(eng, st, args[0]) if args else None
        if v is not None and n in ('size', 'empty', 'count', 'contains'):
            z = mk('setsize', v, n if n in ('count', 'contains') else '', *([x for a in args[1:] for x in self.control(eng, st, a)] if n in ('count', 'contains') else []))
            st.env[inst.id] = mk('icmp', 'eq', z, ci(64, 0), 64) if n == 'empty' else z
            return True
        raise AnalysisError('no contract for %s called in %s' % (full[:120], eng.fn.where(inst)))

    def call(self, eng, st, inst, short, full, args):
        if is_set(short, full):
            return self.set_call(eng, st, inst, short, full, args)
        return super().call(eng, st, inst, short, full, args)

    # -- gates
    def matrix(self, eng, st, addr, n):
        a = as_ptr(addr)
        return tuple(eng.load(st, aspval(ptr(a.a[0], a.a[1] + 8 * k)), 8, 'double') for k in range(n))

    def k_makeGateDD(self, eng, st, inst, short, full, args):
        # sret, package, matrix, n, controls, target, start
        if len(args) != 7:
            raise AnalysisError('no contract for ' + full[:160])
        v = self.get_set(eng, st, args[4])
        if v is None:
            raise AnalysisError('unknown set of controls in ' + eng.fn.where(inst))
        t = mk('gate', args[3], v, args[5], args[6], *self.matrix(eng, st, args[2], 8))
        self.put_edge(eng, st, args[0], self.made(t))
        return True

    def k_makeTwoQubitGateDD(self, eng, st, inst, short, full, args):
        # sret, package, matrix, n, t0, t1, start
        t = mk('gate2', args[3], args[4], args[5], args[6], *self.matrix(eng, st, args[2], 32))
        self.put_edge(eng, st, args[0], self.made(t))
        return True

    def k_multiply(self, eng, st, inst, short, full, args):
        if len([a for a in args]) not in (4, 5, 6):
            raise AnalysisError('no contract for ' + full[:160])
        es = [self.edge(eng, st, a) for a in args[2:4]]
        for e in es:
            t = e[0]
            if e != self.made(t) or t.k not in ('gate', 'gate2', 'prod'):
                raise AnalysisError('a product of something that is not a gate in ' + eng.fn.where(inst))
        t = mk('prod', es[0][0], es[1][0], *args[4:])
        self.put_edge(eng, st, args[0], self.made(t))
        return True


class Wrong(Exception):
    pass


def zmat(ts, n, sub):
    return [[Z(poly(ts[2 * (n * r + c)], sub), poly(ts[2 * (n * r + c) + 1], sub)) for c in range(n)] for r in range(n)]


I2 = [[Z(1), Z(0)], [Z(0), Z(1)]]


class Eval:
    """4x4 matrix on the two targets of a term, with the caller's controls satisfied or not"""

    def __init__(self, n, ctl, t0, t1, start, sub):
        self.n, self.ctl, self.t, self.start, self.sub = n, ctl, (t0, t1), start, sub

    def level(self, n, start):
        if n is not self.n or start is not self.start:
            raise Wrong('a part is built for %s qubits from level %s, not for the number of qubits and the level asked for' % (show(n), show(start)))

    def ev(self, t, sat):
        if t.k == 'prod':
            if len(t.a) > 2 and not (t.a[2].k == 'i' and t.a[2].a[1] == 0):
                if t.a[2] is not self.start:
                    raise Wrong('a product is taken from level ' + show(t.a[2]))
            return matmul(self.ev(t.a[0], sat), self.ev(t.a[1], sat))
        if t.k == 'gate2':
            n, a, b, start = t.a[:4]
            self.level(n, start)
            if (a, b) not in (self.t, self.t[::-1]):
                raise Wrong('a part acts on %s, %s' % (show(a), show(b)))
            m = zmat(t.a[4:], 4, self.sub)
            if (a, b) != self.t:
                w = [0, 2, 1, 3]
                m = [[m[w[r]][w[c]] for c in range(4)] for r in range(4)]
            return m
        if t.k == 'gate':
            n, cs, a, start = t.a[:4]
            self.level(n, start)
            m = zmat(t.a[4:], 2, self.sub)
            if cs.a[0] is not NULL and cs.a[0] is not self.ctl:
                raise Wrong('a part is controlled by a different set')
            its = [(cs.a[k], cs.a[k + 1]) for k in range(1, len(cs.a), 2)]
            if a not in self.t:
                raise Wrong('a part acts on ' + show(a))
            w = self.t.index(a)         # 0: high bit of the index, 1: low bit
            out = [[Z(0)] * 4 for _ in range(4)]
            for col in range(4):
                bits = [col >> 1, col & 1]
                on = sat or cs.a[0] is NULL
                for q, ty in its:
                    if q not in self.t or q is a or ty.k != 'i':
                        raise Wrong('a part on %s is controlled by %s' % (show(a), show(q)))
                    if bits[self.t.index(q)] != (ty.a[1] & 1):
                        on = False
                g = m if on else I2
                for x in range(2):
                    bb = list(bits)
                    bb[w] = x
                    out[2 * bb[0] + bb[1]][col] = g[x][bits[w]]
            return out
        raise Wrong('the diagram returned is not a product of gates: ' + show(t)[:120])


GATES = [('SWAP', 0), ('iSWAP', 0), ('iSWAPinv', 0), ('DCX', 0), ('ECR', 0), ('RXX', 1), ('RYY', 1), ('RZZ', 1), ('RZX', 1), ('XXMinusYY', 2), ('XXPlusYY', 2)]


def check(ctx):
    ctx.rule('Each composite gate is evaluated as a product of 4x4 matrices over polynomials in sines and cosines of its angles, '
             'once with the controls of the caller satisfied and once not; the first must be the definition of the gate on its two targets, the second the identity.')
    ctx.assume.append('The parts do what C20 (gates), C07/C08 (products) say. Equality is over the reals. Controls do not include the targets.')
    lay = ctx.di().layout('Control')
    names = ['e_make%sDD%s' % (g, s) for g, k in GATES for s in ('', '_c')] + ['e_makePeresDD_c', 'e_makePeresdagDD_c']
    m = ctx.module(names, no_controls, opaque=is_set)
    lib = denote.Lib(ctx, m)
    half = C(F(1, 2))
    one, zero = Z(1), Z(0)
    I4 = [[one if r == c else zero for c in range(4)] for r in range(4)]
    # t0 is the high bit of the index
    peres = [[Z(0)] * 4 for _ in range(4)]
    for col in range(4):
        hi, lo = col >> 1, col & 1
        if lo:
            hi ^= 1             # CX from the second target to the first
        lo ^= 1                 # X on the second target
        peres[2 * hi + lo][col] = one
    want = {'Peres': peres, 'Peresdag': dagger(peres)}
    for g, k in GATES + [('Peres', 0), ('Peresdag', 0)]:
        for suf in ('', '_c'):
            nm = 'e_make%sDD%s' % (g, suf)
            if nm not in names:
                continue
            # result, package, n, (controls,) t0, t1, angles..., start
            b = 4 if suf else 3
            n, ctl, t0, t1 = mk('arg', 2), mk('arg', 3), mk('arg', b), mk('arg', b + 1)
            start = mk('arg', b + 2 + k)
            ang = [mk('arg', b + 2 + j) for j in range(k)]
            xs = [atom(mk('angle', j)) for j in range(3)]
            two = [x + x for x in xs]      # angles are written as twice an atom, so that quarter angles are halves of it
            sub = dict(zip(ang, two))
            d = want.get(g)
            if d is None:
                d = definitions(tuple(two))[g + 'mat']
            cl = CompClient(lib, lay)
            eng = Engine(m.fn(nm), cl, m.statics).run()
            ctx.ran(eng)
            ctx.require('results of ' + nm, len(cl.finals), 1)
            title = 'make%sDD%s' % (g, ' with controls' if suf else '')
            for st, _ in cl.finals:
                e = cl.edge(eng, st.copy(), mk('arg', 0))
                # without any control there is nothing that could be unsatisfied
                none = eng.decide(st, mk('icmp', 'eq', mk('setsize', mk('cset', ctl), ''), ci(64, 0), 64)) is True
                for sat in ((True, False) if suf and not none else (True,)):
                    key = '%s%s' % (title, '' if not suf else ', controls satisfied' if sat else ', controls not satisfied')
                    try:
                        if e != cl.made(e[0]):
                            raise Wrong('the diagram returned is not a product of gates')
                        got = Eval(n, ctl, t0, t1, start, sub).ev(e[0], sat)
                        exp = d if sat else I4
                        bad = [(r, c) for r in range(4) for c in range(4) if got[r][c] != exp[r][c]]
                        ok = not bad
                        msg = '' if ok else 'entry [%d][%d] is %s, it should be %s' % (*bad[0], got[bad[0][0]][bad[0][1]], exp[bad[0][0]][bad[0][1]])
                    except Wrong as w:
                        ok, msg = False, str(w)
                    ctx.ob(key, ok, msg, 'Package.hpp: make%sDD' % g, eng.trace(st))
