"""C32: reading amplitudes: every function that turns a diagram into numbers visits every successor with the right product and index."""
from ops import *
from build import ilin, lsub
from rules import opsrun

LV = mk('arg', 'level')
IXT = ('unsigned long',)
LVT = ('unsigned char', 'unsigned short', 'signed char', 'short', 'int', 'unsigned int')


def key(l):
    return tuple(sorted(l[0].items(), key=lambda x: x[0].n)), l[1]


def lin8(t):
    """a level as a linear form over its atoms, widths ignored (levels fit their type)"""
    return key(ilin(t))


def index(t):
    """an index as a linear form over its atoms"""
    return key(ilin(t))


def p2(l, k=0):
    """2^(level + k)"""
    if not l[0]:
        return ci(64, 1 << (l[1] + k)) if 0 <= l[1] + k < 64 else mk('p2', l[0], l[1] + k)
    return mk('p2', l[0], l[1] + k)


class IxClient(DClient):
    """index arithmetic: powers of two of levels, bits of indices, positions written"""

    def binop(self, eng, st, inst, op, a, b):
        if inst.ty == 'i1':
            return None
        w = int(inst.ty[1:]) if inst.ty[1:].isdigit() else 0
        if op in ('shl', 'lshr', 'ashr', 'and', 'mul') and a.k == 'i' and a.a[1] == 0:
            return a
        if op in ('or', 'xor') and any(x.k == 'i' and x.a[1] == 0 for x in (a, b)):
            return b if a.k == 'i' and a.a[1] == 0 else a
        if op == 'shl' and b.k != 'i' and w == 64:
            l = lin8(b)
            if a.k == 'i' and a.a[1] > 0 and a.a[1] & (a.a[1] - 1) == 0:
                return p2(l, a.a[1].bit_length() - 1)
            return mk('mulp2', a, l)
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if y.k == 'p2' and x.k != 'i':
                    return mk('mulp2', x, y.a)
                if y.k == 'p2' and x.k == 'i' and x.a[1] > 0 and x.a[1] & (x.a[1] - 1) == 0:
                    return p2(y.a, x.a[1].bit_length() - 1)
        if op in ('lshr', 'ashr') and b.k != 'i':
            return mk('shr', a, lin8(b))
        if op in ('udiv',) and b.k == 'p2':
            return mk('shr', a, b.a)
        if op == 'and' or (op == 'urem' and b.k == 'i' and b.a[1] == 2):
            if op == 'urem':
                b = ci(w, 1)
            for x, y in ((a, b), (b, a)):
                if y.k == 'p2':
                    return self.bit(eng, st, inst, x, y.a, y)
                if x.k == 'shr' and y.k == 'i' and y.a[1] == 1:
                    return self.bit(eng, st, inst, x.a[0], x.a[1], ci(w, 1))
        if op in ('or', 'xor'):
            # bits of an index below the level at hand are not set: setting one is adding it
            for x, y in ((a, b), (b, a)):
                if y.k == 'p2' and x.k != 'p2':
                    return t_add(w, x, y)
                if y.k == 'i' and y.a[1] == 1 and x.k == 'lin' and x.a[2] % 2 == 0 and all(k % 2 == 0 for _, k in x.a[1]):
                    return t_add(w, x, y)
        return None

    def bit(self, eng, st, inst, x, l, one):
        out = []
        for s, v in eng.split(st, mk('bit', x, l)):
            s.env[inst.id] = one if v else ci(width(one, 64) if one.k == 'i' else 64, 0)
            out.append(s)
        return out

    def implied(self, eng, st, a):
        if a[0] == 'req' and a[1].k == 'p2' and a[2] == 0:
            return False
        if a[0] == 'rgt' and a[1] == 'u' and a[2].k == 'p2' and a[3] == 0:
            return True
        return DClient.implied(self, eng, st, a)

    # -- positions
    def place(self, addr):
        """(indices, component) of a number in the vector or matrix handed over"""
        out = self.op.out
        if out is None:
            return None
        a = as_ptr(addr)
        ix = []
        want = (16, 24) if self.op.dims == 2 else (16,)
        for sc in want:
            b, o = a.a
            if b.k == 'idx' and b.a[1] == sc:
                base, t = b.a[0], b.a[2]
            else:
                base, t = b, ci(64, 0)
            if sc == 16:
                comp = o % 16
                if comp not in (0, 8):
                    return None
                q, o = o // 16, 0
                ix.append(t_add(64, t, ci(64, q)))
            else:
                if o % 24:
                    return None
                ix.append(t_add(64, t, ci(64, o // 24)))
            if base.k != 'load':
                return None
            a = as_ptr(base.a[0])
        if a.a[0] is not out or a.a[1] != 0:
            return None
        return tuple(reversed(ix)), comp

    def store(self, eng, st, inst, addr, val, size):
        p = self.place(addr)
        if p is not None:
            st.c = st.c.add_event(('wr', tuple(index(t) for t in p[0]), p[1], pid(self.fpval(val)) if size == 8 else None, eng.fn.where(inst)))
            return None
        b = pbase(as_ptr(addr).a[0])
        if b.k != 'alloca' and self.op.out is not None and self.op.out in leaves(b):
            self.bad('sem', '%s: what is written' % self.op.name, st, inst, 'something other than an amplitude is written to the result at %s' % show(addr))
        return DClient.store(self, eng, st, inst, addr, val, size)

    # -- loops: the events of one iteration
    def loop_entry(self, eng, st, h):
        st.c = st.c.add_event(('loop', h, tuple((p.id, st.env[p.id]) for p in eng.fn.blocks[h].phis)))

    def header(self, eng, st, h, back, k):
        if k < 0 and back:
            ev = st.c.ev
            for j in range(len(ev) - 1, -1, -1):
                if ev[j][0] == 'loop' and ev[j][1] == h:
                    st.c = CS(st.c.n, st.c.stack, st.c.cells, ev[:j + 1])
                    break

    def widen_heap(self, eng, st, h):
        for k in [k for k in st.mem if self.op.out is not None and self.op.out in leaves(k[0]) and k[0].k in ('idx', 'load') and k[0] is not self.op.out]:
            del st.mem[k]

    def backedge(self, eng, st, h):
        if dict(st.it).get(h, -1) >= 0:
            return None
        ev = st.c.ev
        for j in range(len(ev) - 1, -1, -1):
            if ev[j][0] == 'loop' and ev[j][1] == h:
                self.op.iteration(self, eng, st, h, dict(ev[j][2]), ev[j + 1:])
                return None

    def loop_exit(self, eng, st, inst, cond, val, target):
        for h, k in st.it:
            if k < 0 and target not in eng.fn.loops[h]:
                st.c = st.c.add_event(('exit', h, cond, val))


class Reader(Head):
    """the recursion: (edge, product of the weights above, indices so far, ...)"""
    cached = False

    def __init__(self, lib, name, add=False, halving=False):
        self.lib, self.fname, self.add, self.halving = lib, name, add, halving
        self.full = lib.m.dname(name)
        self.ps = params(self.full)
        self.first = 1
        ed = [j for j, p in enumerate(self.ps) if p.startswith('dd::Edge<')]
        am = [j for j, p in enumerate(self.ps) if p.split()[0].rstrip('&') in ('dd::Complex', 'dd::ComplexValue')]
        self.ixs = [j for j, p in enumerate(self.ps) if p in IXT]
        lv = [j for j, p in enumerate(self.ps) if p in LVT]
        out = [j for j, p in enumerate(self.ps) if p.startswith('std::vector<')]
        if len(ed) != 1 or len(am) != 1 or len(out) != 1 or len(lv) != (1 if halving else 0) or len(self.ixs) not in (1, 2):
            raise AnalysisError('parameters of %s not recognised' % self.full[:160])
        self.e, self.am, self.out, self.lv = ed[0], am[0], out[0], lv[0] if lv else None
        self.nts = [edge_nt(self.ps[self.e])]
        self.eargs = [self.e]
        self.value = 'ComplexValue' in self.ps[self.am]
        self.density = self.nts[0].endswith('dNode')
        self.n = 2 if self.nts[0].endswith('vNode') else 4

    def amp(self, cl, eng, st, args, inst):
        a = args[self.argpos(self.am)]
        if self.value:
            return cl.cedge(eng, st, aspval(ptr(as_ptr(a), -8)))[1]
        w = cl.number(eng, st, a)
        k = cl.scratch(w[0])
        if k is not None:
            c = st.c.get(k)
            cl.check('scr', '%s: the product handed on is not given back yet' % cl.op.name, c is not None and c[1] == 'own', st, inst,
                     'the product handed to the recursive call was given back or is a temporary number')
        return cl.zval(st, w, inst)

    def contract(self, run, cl, eng, st, inst, full, args):
        cl.alive(st, inst)
        e = aspval(as_ptr(args[self.argpos(self.e)]))
        z = self.amp(cl, eng, st, args, inst)
        cl.check('sem', '%s: the result written is the one handed over' % run.name, aspval(as_ptr(args[self.argpos(self.out)])) is run.out, st, inst,
                 'the recursive call writes to something else')
        st.c = st.c.add_event(('visit', e, (pid(z.r), pid(z.i)), tuple(index(args[self.argpos(j)]) for j in self.ixs),
                               lin8(args[self.argpos(self.lv)]) if self.lv is not None else None))
        cl.kill_free(st)
        return [st]

    def analyse(self, ctx, heads, sink):
        fn = self.lib.m.fn(self.fname)
        run = ReadRun(self, ctx, heads)
        cl = IxClient(self.lib, run, heads, sink)
        eng = Engine(fn, cl, self.lib.m.statics, mem=self.body_mem(run))
        cl.eng = eng
        eng.run()
        ctx.ran(eng)
        if not cl.nret:
            raise AnalysisError('no path of %s returns' % self.full[:100])
        return run


class ReadRun(BodyRun):
    def __init__(self, head, ctx, heads):
        self.head, self.lib, self.heads, self.ctx = head, head.lib, heads, ctx
        self.name = strip_templates(head.full).split('::')[-1] + '<' + head.nts[0].split('::')[-1] + '>'
        self.operands = {A[head.argpos(head.e)]}
        self.tab_operands = set()
        self.bases = [A[head.argpos(head.e)]]
        self.nodes = [mk('load', ptr(self.bases[0], 0), None)]
        self.lv = LV
        self.tables = set()
        self.ex = ()
        self.out = A[head.argpos(head.out)]
        self.dims = len(head.ixs) if not head.halving else 1
        self.broken = False

    def call(self, cl, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if short.startswith('dd::Edge') and n in ('applyDmChangesToEdge', 'revertDmChangesToEdge'):
            st.c = st.c.add_event((n[:5], aspval(as_ptr(args[0]))))
            return True
        h = self.heads.get(inst.callee)
        if h is not None:
            return h.contract(self, cl, eng, st, inst, full, args)
        return None

    def equalities(self, cl, eng, st):
        return []

    # -- what a path has to have done
    def product(self, cl, eng, st, inst):
        h = self.head
        w = cl.zval(st, cl.number(eng, st, aspval(ptr(self.bases[0], 8))))
        if h.value:
            a = Z(*[poly(mk('load', ptr(A[h.argpos(h.am)], o), None), psub) for o in (0, 8)])
        else:
            a = cl.zval(st, tuple(mk('load', ptr(A[h.argpos(h.am)], o), None) for o in (0, 8)))
        return w * a

    def want_wr(self, cl, eng, st, pos, z):
        """values to be at a position afterwards"""
        if not self.head.add:
            return z
        old = [mk('load', self.addr(pos, o), None) for o in (0, 8)]
        return z + Z(*[poly(t, psub) for t in old])

    def addr(self, pos, o):
        # only one dimension is added to
        t = mk_lin(64, dict(pos[0][0]), 0)
        b = mk('load', ptr(self.out), None)
        off = 16 * pos[0][1] + o
        if t.k == 'i':
            return ptr(b, off)
        return ptr(mk('idx', b, 16, t), off)

    def written(self, cl, eng, st, inst, wr, pos, z):
        """None or what is wrong with the writes wr of one amplitude"""
        kn = cl.known(eng, st)
        if {(w[1], w[2]) for w in wr} != {(pos, 0), (pos, 8)}:
            return 'the positions written are %s instead of %s' % (sorted({show_ix(w[1]) for w in wr}), show_ix(pos))
        want = self.want_wr(cl, eng, st, pos, z)
        for o, x in ((0, want.r), (8, want.i)):
            last = [w for w in wr if w[2] == o][-1]
            if last[3] is None or not cl.same(kn, Z(PV[last[3]]), Z(x)):
                return 'the %s part written is %s instead of %s' % ('real' if o == 0 else 'imaginary', PV[last[3]] if last[3] is not None else '?', x)
        return None

    def iteration(self, cl, eng, st, h, init, ev):
        """one run of the loop that fills the entries of a terminal: entry number n of the loop is written in iteration n"""
        what = '%s: every entry of a terminal is written once' % self.name
        phis = {mk('phi', h, p): v for p, v in init.items()}
        z = self.product(cl, eng, st, None)
        step = {}
        for p in eng.fn.blocks[h].phis:
            d = t_add(64, st.env[p.id], mk('phi', h, p.id), -1) if p.ty.startswith('i') else UNDEF
            step[mk('phi', h, p.id)] = d.a[1] if d.k == 'i' else None
        wr = [e for e in ev if e[0] == 'wr']
        other = [e for e in ev if e[0] not in ('wr',)]
        why = None
        if other or not wr:
            why = 'an iteration does something other than writing one entry'
        else:
            pos = wr[0][1]
            ks = [a for a, c in pos[0][0]]
            idx = [a for a in ks if a in phis]
            if len(pos) != 1 or len(idx) != 1 or step[idx[0]] != 1 or dict(pos[0][0])[idx[0]] != 1:
                # base + counter
                why = 'the position written does not advance by one in each iteration'
            else:
                first = mk_lin(64, {**{a: c for a, c in pos[0][0] if a is not idx[0]}}, pos[0][1])
                first = t_add(64, first, phis[idx[0]])
                want = mk('mulp2', A[self.head.argpos(self.head.ixs[0])], lin8(A[self.head.argpos(self.head.lv)]))
                if index(first) != index(want):
                    why = 'the first position written is %s instead of %s' % (show(first), show(want))
                else:
                    why = self.written(cl, eng, st, None, wr, pos, z)
        self.broken |= why is not None
        cl.check('sem', what, why is None, st, None, why)
        # the number of iterations is known at the exits
        self.steps = getattr(self, 'steps', {})
        self.steps[h] = (phis, step)

    def loop_count(self, cl, eng, st, inst, h, cond, val):
        """the loop is left after 2^level iterations"""
        if cond.k != 'icmp' or h not in getattr(self, 'steps', {}):
            return 'the number of iterations is not recognised'
        phis, step = self.steps[h]
        pred, a, b, w = cond.a
        want = p2(lin8(A[self.head.argpos(self.head.lv)]))
        sw = {'ugt': 'ult', 'sgt': 'slt', 'uge': 'ule', 'sge': 'sle'}
        if pred in sw:
            pred, a, b = sw[pred], b, a
        # continue while  a pred b  (or leave when it holds)
        for x, y, op in ((a, b, pred), (b, a, {'eq': 'eq', 'ne': 'ne'}.get(pred))):
            if op is None:
                continue
            for f, i in phis.items():
                if step[f] is None:
                    continue
                up = {'ult': (1, False), 'slt': (1, False), 'ne': (1, False), 'eq': (1, True)}.get(op)
                if up and step[f] == 1 and x is f and val == up[1]:
                    n = t_add(64, y, i, -1)
                    if index(n) == index(want):
                        return None
                if step[f] == -1 and x is f and op in ('ne', 'eq') and val == (op == 'eq') and y.k == 'i' and y.a[1] == 0 and index(i) == index(want):
                    return None
                if step[f] == -1 and y is f and op in ('ult', 'slt') and val is False and x.k == 'i' and x.a[1] == 0 and index(i) == index(want):
                    return None
        return 'the loop is not left after 2^level iterations (%s)' % show(cond)

    def ret(self, cl, eng, st, inst, val):
        h = self.head
        p = cl.edge(eng, st, self.bases[0])[0]
        T_ = self.lib.terms[h.nts[0]]
        term = eng.decide(st, mk('pcmp', 'eq', p, T_))
        z = self.product(cl, eng, st, inst)
        ev = st.c.ev
        vis = [e for e in ev if e[0] == 'visit']
        wr = [e for e in ev if e[0] == 'wr']
        ix = tuple(index(A[h.argpos(j)]) for j in h.ixs)
        own = [c[0] for c in st.c.cells if cl.status(eng, st, c[0]) in ('own', 'maybe')]
        cl.check('scr', '%s: every scratch number taken is given back' % self.name, not own, st, inst, '%d scratch number(s) are taken and not given back' % len(own))
        if term is None:
            cl.check('sem', '%s: terminals and nodes are told apart' % self.name, False, st, inst, 'a path treats terminals and nodes alike')
            return
        if term:
            what = '%s: a terminal' % self.name
            if vis:
                cl.check('sem', what, False, st, inst, 'the successors of a terminal are visited')
                return
            if not h.halving:
                why = self.written(cl, eng, st, inst, wr, ix, z)
                cl.check('sem', what, why is None, st, inst, why)
                return
            ex = [e for e in ev if e[0] == 'exit']
            lp = [e for e in ev if e[0] == 'loop']
            if len(lp) != 1 or len(ex) != 1:
                why = 'the 2^level entries of a terminal are not written by one loop'
            else:
                why = self.loop_count(cl, eng, st, inst, lp[0][1], ex[0][2], ex[0][3])
                if why == 'the number of iterations is not recognised' and lp[0][1] not in getattr(self, 'steps', {}):
                    # the state leaves before any iteration has been seen: decided with the others
                    self.pending = getattr(self, 'pending', [])
                    self.pending.append((cl, st.copy(), inst, lp[0][1], ex[0][2], ex[0][3], what))
                    return
            cl.check('sem', what, why is None, st, inst, why)
            return
        what = '%s: every successor is visited with its product and index' % self.name
        if wr:
            cl.check('sem', what, False, st, inst, 'an entry is written at a node')
            return
        kn = cl.known(eng, st)
        seen = {}
        why = None
        base = ilin(A[h.argpos(h.ixs[0])])
        lv = (((LV, 1),), 0)
        for e in vis:
            pb, o = as_ptr(e[1]).a
            k = o // 24 if pb is p and o % 24 == 0 and 0 <= o < 24 * h.n else None
            if k is None:
                why = 'something other than a successor is visited (%s)' % show(e[1])
                break
            if k in seen:
                why = 'successor %d is visited twice' % k
                break
            seen[k] = e
            if not cl.same(kn, Z(PV[e[2][0]], PV[e[2][1]]), z):
                why = 'successor %d is visited with the product %s instead of %s' % (k, Z(PV[e[2][0]], PV[e[2][1]]), z)
                break
            if h.halving:
                i = A[h.argpos(h.ixs[0])]
                want = (index(t_add(64, t_scale(64, i, 2), ci(64, k))),)
                if e[4] != lin8(t_add(8, A[h.argpos(h.lv)], ci(8, 1), -1)):
                    why = 'successor %d is visited for a level other than the next lower one' % k
                    break
            else:
                bits = (k,) if h.n == 2 else (k >> 1, k & 1)
                want = tuple(index(t_add(64, A[h.argpos(j)], p2(lv)) if b else A[h.argpos(j)]) for j, b in zip(h.ixs, bits))
            if e[3] != want:
                why = 'successor %d is visited with index %s instead of %s' % (k, show_ix(e[3]), show_ix(want))
                break
        for k in range(h.n):
            if why is None and k not in seen:
                w = cl.number(eng, st, aspval(ptr(p, 24 * k + 8)))
                if h.halving and not h.add or eng.decide(st, cl.az(st, w)) is not True:
                    why = 'successor %d is not visited although its weight is not known to be zero' % k
        if why is None and h.density:
            why = pairing(p, vis, ev, h.n)
        cl.check('sem', what, why is None, st, inst, why)


def pairing(p, vis, ev, n):
    """every edge of a density matrix is visited in its changed form and put back afterwards"""
    on = set()
    for e in ev:
        if e[0] == 'apply':
            if e[1] in on:
                return 'the marks of an edge are applied twice'
            on.add(e[1])
        elif e[0] == 'rever':
            if e[1] not in on:
                return 'the marks of an edge are taken back without having been applied'
            on.discard(e[1])
        elif e[0] == 'visit' and e[1] not in on:
            return 'an edge of a density matrix is visited without its marks applied'
    if on:
        return 'the marks of an edge are applied and not taken back'
    return None


def show_ix(ix):
    return '(' + ', '.join('+'.join(['%s%s' % ('%d*' % c if c != 1 else '', show(a)) for a, c in x[0]] + ([str(x[1])] if x[1] or not x[0] else [])) for x in ix) + ')'


class At(Head):
    """getValueByPath(edge, product of the weights above, indices): one amplitude"""
    scalar = True

    def __init__(self, lib, name):
        self.lib, self.fname = lib, name
        self.full = lib.m.dname(name)
        self.ps = params(self.full)
        self.first = 1
        ed = [j for j, p in enumerate(self.ps) if p.startswith('dd::Edge<')]
        am = [j for j, p in enumerate(self.ps) if p.split()[0].rstrip('&') == 'dd::Complex']
        self.ixs = [j for j, p in enumerate(self.ps) if p in IXT]
        if len(ed) != 1 or len(am) != 1 or len(self.ixs) not in (1, 2):
            raise AnalysisError('parameters of %s not recognised' % self.full[:160])
        self.e, self.am = ed[0], am[0]
        self.nts = [edge_nt(self.ps[self.e])]
        self.eargs = [self.e]
        self.n = 2 if self.nts[0].endswith('vNode') else 4

    def contract(self, run, cl, eng, st, inst, full, args):
        cl.alive(st, inst)
        e = cl.edge(eng, st, args[self.argpos(self.e)])
        w = cl.number(eng, st, args[self.argpos(self.am)])
        if not cl.usable(st, (e[0],) + w, inst, 'getValueByPath'):
            return []
        x = cl.zval(st, e[1:], inst) * cl.zval(st, w, inst) * op_atom('G', (e[0],), tuple(index(args[self.argpos(j)]) for j in self.ixs))
        cl.kill_free(st)
        st.env[inst.id] = mk('agg', pvt(x.r), pvt(x.i))
        return [st]

    def analyse(self, ctx, heads, sink):
        run = AtRun(self, ctx, heads)
        cl = IxClient(self.lib, run, heads, sink)
        eng = Engine(self.lib.m.fn(self.fname), cl, self.lib.m.statics, mem=self.body_mem(run))
        cl.eng = eng
        eng.run()
        ctx.ran(eng)
        if not cl.nret:
            raise AnalysisError('no path of %s returns' % self.full[:100])
        return run


class AtRun(BodyRun):
    out = None
    dims = 1

    def __init__(self, head, ctx, heads):
        self.head, self.lib, self.heads, self.ctx = head, head.lib, heads, ctx
        self.name = 'getValueByPath<' + head.nts[0].split('::')[-1] + '>'
        self.bases = [A[head.argpos(head.e)]]
        self.operands = set(self.bases)
        self.tab_operands = set()
        self.nodes = [mk('load', ptr(self.bases[0], 0), None)]
        self.lv = LV
        self.tables = set()
        self.ex = ()

    def equalities(self, cl, eng, st):
        return []

    def call(self, cl, eng, st, inst, short, full, args):
        h = self.heads.get(inst.callee)
        return h.contract(self, cl, eng, st, inst, full, args) if h is not None else None

    def iteration(self, cl, eng, st, h, init, ev):
        raise AnalysisError('a loop in getValueByPath')

    def ret(self, cl, eng, st, inst, val):
        h = self.head
        if val is None or val.k != 'agg':
            raise AnalysisError('the result of %s is not understood' % self.name)
        got = Z(*[cl.fpval(x) for x in val.a])
        own = [c[0] for c in st.c.cells if cl.status(eng, st, c[0]) in ('own', 'maybe')]
        cl.check('scr', '%s: every scratch number taken is given back' % self.name, not own, st, inst, '%d scratch number(s) are taken and not given back' % len(own))
        p, w = self.operand(cl, eng, st, 0)
        z = w * cl.zval(st, tuple(mk('load', ptr(A[h.argpos(h.am)], o), None) for o in (0, 8)))
        what = '%s: the amplitude at the given index' % self.name
        term = eng.decide(st, mk('pcmp', 'eq', p, self.lib.terms[h.nts[0]]))
        if term is None:
            cl.check('sem', what, False, st, inst, 'a path treats terminals and nodes alike')
            return
        if term:
            kn = cl.known(eng, st)
            cl.check('sem', what, cl.same(kn, got, z), st, inst, lambda: 'the result at a terminal is %s instead of %s' % (got, z))
            return
        lv = (((LV, 1),), 0)
        states = [(st, ())]
        for j in h.ixs:
            states = [(s2, b + (v,)) for s, b in states for s2, v in eng.split(s.copy(), mk('bit', A[h.argpos(j)], lv))]
        for s, bits in states:
            k = sum(int(b) << (len(bits) - 1 - i) for i, b in enumerate(bits))
            e = cl.edge(eng, s, aspval(ptr(p, 24 * k)))
            want = z * cl.zval(s, e[1:]) * op_atom('G', (e[0],), tuple(index(A[h.argpos(j)]) for j in h.ixs))
            kn = cl.known(eng, s)
            ok = cl.same(kn, got, want) or (got.zero() and eng.decide(s, cl.az(s, e[1:])) is True)
            cl.check('sem', what, ok, s, inst, lambda: 'for index bits %s at the node\'s level the result is %s instead of %s' % (bits, got, want))


# ------------------------------------------------------------------------------------------------ entry points
class Entry_:
    """the public function: everything below the root, from product one and index zero"""

    def __init__(self, lib, wrapper, reader, kind):
        self.lib, self.fname, self.reader, self.kind = lib, wrapper, reader, kind
        self.full = wrapper

    def analyse(self, ctx, heads, sink):
        run = EntryRun(self, ctx, heads)
        cl = IxClient(self.lib, run, heads, sink)
        mem = {}
        if self.kind != 'at':
            mem[(run.nodes[0], self.lib.voffs[self.reader.nts[0]])] = (1, LV)
        eng = Engine(self.lib.m.fn(self.fname), cl, self.lib.m.statics, mem=mem)
        cl.eng = eng
        eng.run()
        ctx.ran(eng)
        if not cl.nret:
            raise AnalysisError('no path of %s returns' % self.full[:100])
        return run


class EntryRun(BodyRun):
    dims = 1

    def __init__(self, head, ctx, heads):
        self.head, self.lib, self.heads, self.ctx = head, head.lib, heads, ctx
        self.name = head.fname[2:]
        r = head.reader
        # get: (result, package, edge)   fill: (package, edge, result, levels)   at: (result, package, edge, indices)
        self.bases = [A[1] if head.kind == 'fill' else A[2]]
        self.out = {'get': A[0], 'fill': A[2], 'at': None}[head.kind]
        self.operands = set(self.bases)
        self.tab_operands = set()
        self.nodes = [mk('load', ptr(self.bases[0], 0), None)]
        self.lv = LV
        self.tables = set()
        self.ex = ()

    def equalities(self, cl, eng, st):
        return []

    def iteration(self, cl, eng, st, h, init, ev):
        if any(e[0] in ('wr', 'visit') for e in ev):
            cl.check('sem', '%s: the whole diagram is read once' % self.name, False, st, None, 'entries are written in a loop')

    def call(self, cl, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if short.startswith('dd::Edge') and n in ('applyDmChangesToEdge', 'revertDmChangesToEdge'):
            st.c = st.c.add_event((n[:5], aspval(as_ptr(args[0]))))
            return True
        h = self.heads.get(inst.callee)
        if h is not None:
            if h is not self.head.reader:
                cl.check('sem', '%s: the whole diagram is read once' % self.name, False, st, inst, 'another recursion is called')
                return []
            return h.contract(self, cl, eng, st, inst, full, args)
        if short.startswith('std::vector::'):
            this = aspval(as_ptr(args[0]))
            if n == 'vector' and len(args) >= 2:
                ps = params(full)
                init = None
                if len(ps) >= 2 and ps[1].endswith('const&') and 'allocator' not in ps[1].split('<')[0]:
                    v = as_ptr(args[2])
                    if 'std::vector' in ps[1]:
                        init = ('vec', aspval(v))
                    else:
                        init = tuple(eng.load(st, aspval(ptr(v, o)), 8, 'double') for o in (0, 8))
                        init = 'zero' if all(x.k == 'f' and x.a[0] == 0 for x in init) else 'other'
                elif ps and ps[0] == 'unsigned long':
                    init = 'zero'
                if ps and ps[0] == 'unsigned long':
                    st.c = st.c.add_event(('make', this, index(args[1]), init))
                    return True
            if n == '~vector':
                return True
        return None

    def on_load(self, cl, eng, st, inst, a, val, size):
        return None

    def made(self, st, x, depth=0):
        """sizes of a vector made of zeros"""
        ms = [e for e in st.c.ev if e[0] == 'make' and e[1] is x]
        if len(ms) != 1:
            return None
        if ms[0][3] == 'zero':
            return (ms[0][2],)
        if isinstance(ms[0][3], tuple) and ms[0][3][0] == 'vec' and depth < 2:
            r = self.made(st, ms[0][3][1], depth + 1)
            return None if r is None else (ms[0][2],) + r
        return None

    def implied(self, cl, eng, st, a):
        return None

    def feasible(self, cl, eng, st, a, val):
        return True

    def ret(self, cl, eng, st, inst, val):
        h, r = self.head, self.head.reader
        what = '%s: the whole diagram is read once' % self.name
        own = [c[0] for c in st.c.cells if cl.status(eng, st, c[0]) in ('own', 'maybe')]
        cl.check('scr', '%s: every scratch number taken is given back' % self.name, not own, st, inst, '%d scratch number(s) are taken and not given back' % len(own))
        p = cl.edge(eng, st, self.bases[0])[0]
        term = eng.decide(st, mk('pcmp', 'eq', p, self.lib.terms[r.nts[0]]))
        if h.kind == 'at':
            z = Z(*[cl.fpval(eng.load(st, aspval(ptr(A[0], o)), 8, 'double')) for o in (0, 8)])
            e = cl.edge(eng, st, self.bases[0])
            want = cl.zval(st, e[1:]) * (Z(1) if term else op_atom('G', (e[0],), tuple(index(A[3 + j]) for j in range(len(r.ixs)))))
            cl.check('sem', '%s: the amplitude at the given index' % self.name, cl.same(cl.known(eng, st), z, want), st, inst,
                     lambda: 'the result is %s instead of %s' % (z, want))
            return
        if term is True:
            return
        ev = st.c.ev
        vis = [e for e in ev if e[0] == 'visit']
        why = None
        kn = cl.known(eng, st)
        if len(vis) != 1 or any(e[0] == 'wr' for e in ev):
            why = 'the recursion is entered %d times' % len(vis)
        else:
            v = vis[0]
            e0, e1 = cl.edge(eng, st, self.bases[0]), cl.edge(eng, st, v[1])
            lv = (((LV, 1),), 0)
            if e0 != e1:
                why = 'the recursion is entered with another edge'
            elif not cl.same(kn, Z(PV[v[2][0]], PV[v[2][1]]), Z(1)):
                why = 'the recursion starts from the product %s instead of one' % Z(PV[v[2][0]], PV[v[2][1]])
            elif any(i != ((), 0) for i in v[3]):
                why = 'the recursion starts at index %s instead of 0' % show_ix(v[3])
            elif h.kind == 'fill' and v[4] != lin8(A[3]):
                why = 'the recursion starts with another number of levels'
            elif h.kind == 'get':
                size = self.made(st, self.out)
                if size != (index(p2(lv, 1)),) * len(r.ixs):
                    why = 'the result is not made of 2^levels zeros%s' % (' in each dimension' if len(r.ixs) > 1 else '')
                elif r.density:
                    why = pairing(p, vis, ev, 4)
                if why is None:
                    k = [i for i, e in enumerate(ev) if e[0] == 'visit'][0]
                    if any(e[0] == 'make' and e[1] is self.out for e in ev[k:]):
                        why = 'the result is made anew after having been filled'
        cl.check('sem', what, why is None, st, inst, why)


READERS = [('x_getVector', 'get', False, False), ('x_getMatrix', 'get', False, False), ('x_getDensityMatrix', 'get', False, False),
           ('e_exportAmplitudes', 'fill', False, True), ('e_addAmplitudes', 'fill', True, True)]
ATS = ['e_getValueByPath_v', 'e_getValueByPath_m']


def cut(s, d):
    return opsrun.cut(s, d) or (s.startswith('dd::Edge') and s.split('::')[-1] in ('applyDmChangesToEdge', 'revertDmChangesToEdge'))


def vec(s, d):
    n = s.split('::')[-1]
    return s.startswith('std::vector::') and n in ('vector', '~vector') and 'unsigned long' in ' '.join(params(d)[:1]) or s.startswith('std::vector::~vector')


def check(ctx):
    ctx.rule('Every path of the recursions that read a diagram (and of the public functions that start them) is interpreted abstractly with the values of numbers as polynomials '
             'and indices as linear forms over levels; at a node every successor has to be visited exactly once with the product of the weights so far and the index extended '
             'by its bit, or be known to have weight zero; at a terminal exactly the product is written at exactly the index reached.')
    ctx.assume.append('Diagrams have at least one level; at a node of level v the index reached has no bit at or below v set.')
    roots = [r[0] for r in READERS] + ATS
    m0 = llvmir.Module(ctx.ir())
    hs = {}
    for r in roots:
        h = m0.heads(r)
        if len(h) != 1:
            raise AnalysisError('%d recursive functions reached from %s' % (len(h), r))
        hs[r] = h[0]
    m = ctx.module(roots, cut, vec)
    lib = Lib(ctx, m)
    heads, jobs = {}, []
    for r, kind, add, halving in READERS:
        heads[hs[r]] = rd = Reader(lib, hs[r], add, halving)
        jobs += [(r, rd), (r, Entry_(lib, r, rd, kind))]
    for r in ATS:
        heads[hs[r]] = rd = At(lib, hs[r])
        jobs += [(r, rd), (r, Entry_(lib, r, rd, 'at'))]

    def job(h):
        def go(sink):
            run = h.analyse(ctx, heads, sink)
            for cl, st, inst, lh, cond, val, what in getattr(run, 'pending', []):
                why = run.loop_count(cl, cl.eng, st, inst, lh, cond, val)
                cl.check('sem', what, why is None, st, inst, why)
            return []
        return go
    res = opsrun.parallel(ctx, [(r, job(h)) for r, h in jobs])
    opsrun.file_events(ctx, res, {'sem', 'scr', 'tab', 'life'})
    ctx.require('recursions that read diagrams', len(heads), len(roots))
