"""makeDDNode: the node that is built denotes the function given by its successors, in normal form (client of denote.py)."""
from denote import *
from common import *

A = [mk('arg', j) for j in range(12)]
NODE = mk('heapobj', 'node', 0)
FOUND = mk('heapobj', 'node', 1)


def cut(s, d):
    return is_primitive(s, d) or s.endswith('::checkSpecialMatrices')


class NodeRun:
    """driver wrapper e_makeDDNode_x(result, package, level, successors, cached[, generateDensityMatrix])"""
    tab_operands = ()
    may_write_operand = False

    def __init__(self, ctx, lib, di, s, cached, sink):
        self.ctx, self.lib, self.s, self.cached, self.sink = ctx, lib, s, cached, sink
        self.nt = 'dd::%sNode' % s
        self.n = 2 if s == 'v' else 4
        self.lay = di.layout('%sNode' % s)
        self.operands = {A[3]}
        self.tab_operands = () if cached else (A[3],)
        self.name = 'new %s node, weights %s' % ({'v': 'vector', 'm': 'matrix', 'd': 'density'}[s], 'scratch numbers' if cached else 'stored numbers')
        self.kept = None
        mem = {}
        cells = []
        self.inp = []
        for j in range(self.n):
            p = mk('load', ptr(A[3], 24 * j), None)
            if cached:
                w = (mk('mscr', 'scr', j), mk('mscr', 'sci', j))
                vr, vi = (atom(('V', reg(mk('in', j, c)))) for c in 'ri')
                cells.append((j, 'own?', pid(vr), pid(vi)))
                z = Z(vr, vi)
                for o, t in ((8, w[0]), (16, w[1])):
                    mem[(A[3], 24 * j + o)] = (8, t)
            else:
                w = tuple(mk('load', ptr(A[3], 24 * j + o), None) for o in (8, 16))
                z = None
            self.inp.append((p, w, z))
        self.mem = mem
        self.initial = CS(self.n if cached else 0, (), tuple(cells))

    def analyse(self, m):
        fn = m.fn('e_makeDDNode_' + self.s)
        cl = NClient(self.lib, self, {}, self.sink)
        cl.initial = self.initial
        a = list(A[:len(fn.args)])
        a[4] = ci(1, 1 if self.cached else 0)
        eng = Engine(fn, cl, self.lib.m.statics, args=a, mem=dict(self.mem))
        cl.eng = eng
        eng.run()
        self.ctx.ran(eng)
        if not cl.nret:
            raise AnalysisError('no path of makeDDNode returns')

    def equalities(self, cl, eng, st):
        return ()

    def implied(self, cl, eng, st, a):
        if a[0] == 'peq' and NODE in (a[1], a[2]):
            o = a[2] if a[1] is NODE else a[1]
            if o.k in ('null', 'glob', 'load', 'heapobj') and o is not NODE:
                return False
        if a[0] == 'peq' and FOUND in (a[1], a[2]):
            o = a[2] if a[1] is FOUND else a[1]
            if o.k in ('null', 'glob'):
                return False
        if a[0] == 'peq':
            # zero edges handed over are zero terminals
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y in TERMINALS:
                    for p, w, z in self.inp:
                        if p is x and eng.decide(st, cl.ez(st, w)) is True:
                            return True
        return None

    def feasible(self, cl, eng, st, a, val):
        return True

    def inval(self, cl, st, j):
        p, w, z = self.inp[j]
        return z if z is not None else Z(*[cl.comp(st, t) for t in w])

    def nonzero(self, cl, eng, st):
        out = []
        for j, (p, w, z) in enumerate(self.inp):
            q = cl.ez(st, w) if z is None else cl.azv(z)
            if eng.decide(st, q) is False:
                out.append(self.inval(cl, st, j))
        return out

    def level(self, cl, st, p):
        return None

    def on_load(self, cl, eng, st, inst, a, val, size):
        return None

    def may_write(self, cl, st, b, o):
        return False

    def number_call(self, cl, eng, st, inst, n, full, args):
        return None

    def mark(self, st):
        return [e for e in st.c.ev if e[0] == 'node']

    def call(self, cl, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if short.startswith('dd::UniqueTable::'):
            if n == 'getNode':
                if any(e == ('node', 'get') for e in st.c.ev):
                    raise AnalysisError('several nodes are taken in makeDDNode')
                st.c = st.c.add_event(('node', 'get'))
                eng.havoc_base(st, NODE, 'new') if hasattr(eng, 'havoc_base') else None
                st.env[inst.id] = NODE
                return True
            if n == 'returnNode':
                cl.check('pool', '%s: the node taken from the pool is stored or given back, once' % self.name, args[1] is NODE and self.mark(st) == [('node', 'get')], st, inst,
                         'a node is returned to the pool that is in use or was not taken from it')
                st.c = st.c.add_event(('node', 'back'))
                return True
            if n == 'lookup':
                return self.lookup(cl, eng, st, inst, args)
        if n == 'checkSpecialMatrices':
            cl.check('pool', '%s: only the stored node is marked' % self.name, args[1] is self.lib.terms[self.nt] or len(self.mark(st)) >= 2, st, inst, 'the node is marked before it has been stored')
            if args[1] is NODE or args[1] is FOUND:
                f = self.lay['flags']
                st.mem[(args[1], f)] = (1, mk('marks', args[1]))
            cl.kill_free(st)
            return True
        return None

    def lookup(self, cl, eng, st, inst, args):
        sret, this, eaddr, keep = args[:4]
        e = cl.edge(eng, st, eaddr)
        T = self.lib.terms[self.nt]
        if e[0] is T:
            cl.put_edge(eng, st, sret, *e)
            return [st]
        what = '%s: ' % self.name
        if not cl.check('pool', what + 'the node taken from the pool is stored or given back, once', e[0] is NODE and self.mark(st) == [('node', 'get')], st, inst,
                        'the node that is looked up is not the new one, or it was given back before'):
            return []
        v = eng.load(st, aspval(ptr(NODE, self.lay['v'])), 1, 'i8')
        cl.check('form', what + 'level of the node', cl.same_level(eng, st, v, A[2]), st, inst, 'the node is stored at level %s instead of the one asked for' % show(v))
        if self.s != 'v':
            f = eng.load(st, aspval(ptr(NODE, self.lay['flags'])), 1, 'i8')
            if self.s == 'd':
                ok = eng.decide(st, mk('icmp', 'eq', f, ci(8, 8), 8)) is True and eng.decide(st, A[5]) is True or \
                    eng.decide(st, mk('icmp', 'eq', f, ci(8, 0), 8)) is True and eng.decide(st, A[5]) is False
                if not ok:
                    out = []
                    for s2, b in eng.split(st, A[5]):
                        ok = eng.decide(s2, mk('icmp', 'eq', f, ci(8, 8 if b else 0), 8)) is True
                        cl.check('form', what + 'flags of the node', ok, s2, inst, 'the node is looked up with the flags %s, density matrices: %s' % (show(f), b))
                        out.append(s2)
                    res = []
                    for s2 in out:
                        res += self.lookup2(cl, eng, s2, inst, sret, e)
                    return res
            else:
                ok = eng.decide(st, mk('icmp', 'eq', f, ci(8, 0), 8)) is True
            cl.check('form', what + 'flags of the node', ok, st, inst, 'the node is looked up with the flags %s' % show(f))
        return self.lookup2(cl, eng, st, inst, sret, e)

    def lookup2(self, cl, eng, st, inst, sret, e):
        if cl.contradiction(eng, st):
            return []
        what = '%s: ' % self.name
        T = self.lib.terms[self.nt]
        ds, ws = [], []
        for j in range(self.n):
            s = cl.edge(eng, st, aspval(ptr(NODE, self.lay['e'] + 24 * j)))
            w = s[1:]
            ws.append(w)
            if eng.decide(st, cl.ez(st, w)) is True:
                w = (self.lib.zero, self.lib.zero)
                ws[-1] = w
            cl.check('tab', 'the weights in a node that is stored are stored numbers', all(cl.is_table(t) for t in w), st, inst,
                     'the weight of successor %d of the node that is looked up is (%s, %s), not a stored number' % (j, show(w[0]), show(w[1])))
            z = cl.zval(st, w, inst)
            d = z if z.zero() else z * op_atom('N', (s[0],))
            ds.append(d)
            if eng.decide(st, cl.ez(st, w)) is not False:
                cl.check('form', what + 'successors that are zero are zero terminals', eng.decide(st, mk('pcmp', 'eq', s[0], T)) is True, st, inst,
                         'the weight of successor %d may be zero although it does not point to the terminal' % j)
        self.normal(cl, eng, st, inst, ws)
        k = len(FR)
        FR.append(('exact', A[2], tuple(ds)))
        out = []
        for p in (NODE, FOUND):
            s2 = st.copy()
            s2.c = s2.c.add_event(('node', 'kept' if p is NODE else 'found', k))
            cl.put_edge(eng, s2, sret, p, *e[1:])
            if p is FOUND:
                s2.mem[(FOUND, self.lay['v'])] = (1, eng.load(st, aspval(ptr(NODE, self.lay['v'])), 1, 'i8'))
            out.append(s2)
        return out

    def normal(self, cl, eng, st, inst, ws):
        what = '%s: ' % self.name
        kn = cl.known(eng, st)
        one = [j for j in range(self.n) if eng.decide(st, cl.eo(st, ws[j])) is True]
        zero = [j for j in range(self.n) if eng.decide(st, cl.ez(st, ws[j])) is True]
        if self.s == 'v':
            zs = [cl.zval(st, w, inst) for w in ws]
            n2 = sum((z.r * z.r + z.i * z.i for z in zs), P())
            ok = cl.same(kn, Z(n2), Z(1))
            cl.check('form', what + 'normal form', ok, st, inst, lambda: 'the squared magnitudes of the successor weights are not known to sum up to 1: %s' % kn[0](Z(n2)))
            cl.check('form', what + 'one successor weight is real', any(w[1] is self.lib.zero for w in ws), st, inst, 'no successor weight is real')
            one = [j for j in range(2) if ws[j][1] is self.lib.zero and j not in zero]
        elif not cl.check('form', what + 'normal form', bool(one), st, inst, 'no successor weight of the node is exactly one'):
            return
        # the successor with weight one has the largest magnitude (up to the tolerance)
        big, ge = set(), set()
        mags = {}
        for j, (p, w, z) in enumerate(self.inp):
            v = z if z is not None else Z(*[cl.comp(st, t) for t in w])
            mags[j] = v.r * v.r + v.i * v.i
        for key, val in st.facts.items():
            if key[0] != 'fc' or key[1] not in ('olt', 'ole'):
                continue
            try:
                d = cl.fpval(key[3]) - cl.fpval(key[2])
            except Exception:
                continue
            for a in mags:
                for b in mags:
                    if a == b:
                        continue
                    r = d - (mags[a] - mags[b])
                    c = r.const()
                    if c is None or abs(c) > F(1, 10 ** 9):
                        continue
                    # mag[a] - mag[b] + c  > 0 (val) or <= 0
                    if val:
                        big.add((a, b))
                    else:
                        ge.add((b, a))
        for k in one:
            dom, todo = {k}, [k]
            while todo:
                x = todo.pop()
                for y in range(self.n):
                    if y not in dom and ((x, y) in big or (x, y) in ge):
                        dom.add(y)
                        todo.append(y)
            if all(j in dom or j in zero for j in range(self.n)):
                cl.good('form', what + 'pivot')
                return
        cl.bad('form', what + 'pivot', st, inst, 'the successor whose weight is one (real, for vectors) is not known to be the one of largest magnitude')

    def memo(self, cl, eng, st, inst, n, full, args):
        return None

    def ret(self, cl, eng, st, inst, val):
        what = '%s: ' % self.name
        ev = self.mark(st)
        if cl.contradiction(eng, st):
            return
        e = cl.edge(eng, st, A[0])
        z = cl.zval(st, e[1:], inst)
        kn = cl.known(eng, st)
        T = self.lib.terms[self.nt]
        want = []
        for p, w, v in self.inp:
            if v is None:
                v = Z(*[cl.comp(st, t) for t in w])
            elif cl.status(eng, st, w[0].a[1]) == 'zero':
                v = Z(0)
            want.append(v if v.zero() else v * op_atom('N', (p,)))
        last = ev[-1] if len(ev) > 1 else None
        cl.check('pool', what + 'the node taken from the pool is stored or given back, once', len(ev) == 2, st, inst,
                 'the node taken from the pool is neither stored nor given back' if len(ev) < 2 else 'the node is stored or given back several times')
        if z.zero() or e[0] is T:
            ok = z.zero() and e[0] is T and all(cl.same(kn, Z(0), x) for x in want)
            cl.check('form', what + 'value', ok, st, inst, lambda: 'the result is zero although successors are not known to be zero')
        elif last is None or last[1] == 'back' or e[0] not in (NODE, FOUND) or (e[0] is NODE) != (last[1] == 'kept'):
            cl.bad('form', what + 'value', st, inst, 'the result points to %s' % show(e[0]))
        else:
            ds = FR[last[2]][2]
            for j, (x, y) in enumerate(zip(ds, want)):
                ok = cl.same(kn, z * x, y)
                cl.check('form', what + 'value', ok, st, inst, lambda: 'successor %d stands for %s instead of %s' % (j, kn[0](z * x), kn[0](y)))
        if self.s == 'm' and e[0] is NODE:
            f = st.mem.get((NODE, self.lay['flags']))
            cl.check('mark', 'new matrix nodes are marked before they are returned', f is not None and f[1].k == 'marks', st, inst, 'the marks of the new node are not determined')
        w = e[1:]
        own = [c[0] for c in st.c.cells if cl.status(eng, st, c[0]) in ('own', 'maybe')]
        if self.cached:
            if eng.decide(st, cl.ez(st, w)) is not True:
                ok = cl.is_scratch(*w) and cl.status(eng, st, w[0].a[1]) in ('own', 'maybe')
                cl.check('scr', what + 'the weight of the result is zero or a scratch number of its own', ok, st, inst, 'the weight of the result is (%s, %s)' % (show(w[0]), show(w[1])))
                if ok:
                    own = [k for k in own if k != w[0].a[1]]
        else:
            cl.check('tab', what + 'the weight of the result is a stored number', all(cl.is_table(t) for t in w), st, inst, 'the weight of the result is (%s, %s)' % (show(w[0]), show(w[1])))
        cl.check('scr', what + 'every scratch number handed over is given back or is the weight of the result', not own, st, inst,
                 '%d scratch number(s) are neither given back nor returned' % len(own))


class NClient(DClient):
    pass


def jobs(ctx, kinds=('v', 'm', 'd')):
    m = ctx.module(['e_makeDDNode_' + k for k in kinds], cut)
    lib, di = Lib(ctx, m), ctx.di()

    def job(k, c):
        return ('e_makeDDNode_%s%s' % (k, ' cached' if c else ''), lambda sink: NodeRun(ctx, lib, di, k, c, sink).analyse(m))
    return [job(k, c) for c in (True, False) for k in reversed(kinds)]
