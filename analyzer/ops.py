"""Specifications of the recursive operations (clients of denote.py): what a head and its callers have to establish."""
from denote import *
from common import *
from linear import *

A = [mk('arg', j) for j in range(12)]
ONE8 = ci(8, 1)


def edge_nt(ty):
    i = ty.index('dd::Edge<') + 9
    return ty[i:ty.index('>', i)]


def is_edge_ref(ty):
    return ty.startswith('dd::Edge<') and ty.endswith('const&')


class Head:
    """one recursive function: its contract for callers and its obligations"""
    suffix = ''
    any_levels = False  # the operands need not be at the same level
    kind = 'own'        # the result's weight is zero or a scratch number the caller owns ('own') / a stored number ('tab')
    memo_ops = 2
    scalar = False
    tab_args = False    # the operands' weights are stored numbers

    def __init__(self, lib, name):
        self.lib, self.fname = lib, name
        self.full = lib.m.dname(name)
        self.ps = params(self.full)
        self.eargs = [j for j, p in enumerate(self.ps) if self.is_operand(p)]
        self.nts = [edge_nt(self.ps[j]) for j in self.eargs]
        self.sret = 0
        self.first = 2          # sret, this

    def is_operand(self, p):
        return is_edge_ref(p)

    def argpos(self, j):
        """IR argument index of parameter j"""
        return self.first + j

    # what the operation means: ops = [(node, weight Z)], ex = extra arguments
    def expr(self, cl, st, ops, ex):
        raise NotImplementedError

    def succ(self, cl, eng, st, ops, ex):
        return None

    def extra(self, args):
        return ()

    def spec(self, cl, eng, st, ops, ex):
        return {'formal': self.expr(cl, st, ops, ex), 'succ': self.succ(cl, eng, st, ops, ex), 'level': self.rlevel(cl, st, ops, ex)}

    def rlevel(self, cl, st, ops, ex):
        for p, z in ops:
            l = cl.op.level(cl, st, p)
            if l is not None:
                return l
        return None

    def result_nt(self):
        return self.nts[-1]

    # -- call site
    def contract(self, run, cl, eng, st, inst, full, args):
        cl.alive(st, inst)
        name = strip_templates(full).split('::')[-1]
        ops = []
        for j in self.eargs:
            e = cl.edge(eng, st, args[self.argpos(j)])
            if not cl.usable(st, e, inst, name):
                return []
            if self.tab_args:
                cl.check('tab', 'operands handed to %s have stored weights' % name, all(cl.is_table(t) for t in e[1:]), st, inst,
                         'the weight (%s, %s) is not a stored number' % (show(e[1]), show(e[2])))
            ops.append((e[0], cl.zval(st, e[1:], inst)))
        ex = self.extra(args)
        why = self.pre(run, cl, eng, st, ops, ex, args)
        cl.check('sem', '%s: the operands handed to %s fit' % (run.name, name), why is None, st, inst, why)
        x = self.expr(cl, st, ops, ex)
        fr = ('call', x, self.rlevel(cl, st, ops, ex))
        cl.kill_free(st)
        if self.scalar:
            st.env[inst.id] = mk('agg', pvt(x.r), pvt(x.i))
            return [st]
        if self.kind == 'own':
            return cl.own_result(eng, st, inst, args[self.sret], self.result_nt(), fr, [x])
        return cl.tab_result(eng, st, inst, args[self.sret], self.result_nt(), fr, [x])

    def pre(self, run, cl, eng, st, ops, ex, args):
        """operands that are not zero are at the same level"""
        ls = []
        for p, z in ops:
            if z.zero():
                continue
            l = run.level(cl, st, p)
            ls.append(l)
        ls = [l for l in ls if l is not None]
        for l in ls[1:]:
            if not cl.same_level(eng, st, ls[0], l):
                return 'the operands are at levels %s and %s' % (show(ls[0]), show(l))
        return None

    # -- memo table
    def memo(self, run, cl, eng, st, inst, n, full, args):
        cls = full[:full.rindex('::' + n)]
        ta = targs(cls[cls.index('ComputeTable<'):])
        unary = 'UnaryComputeTable<' in cls
        kt = ta[:1] if unary else ta[:2]
        rt = ta[len(kt)]
        what = '%s: ' % run.name
        if n == 'lookup':
            sret, this, rest = args[0], args[1], args[2:]
        elif n == 'insert':
            this, rest = args[0], args[1:]
        else:
            raise AnalysisError('no contract for %s called in %s' % (full[:120], eng.fn.where(inst)))
        run.tables.add(this)
        if len(kt) != self.memo_ops:
            raise AnalysisError('memo table with %d operands used in %s' % (len(kt), eng.fn.where(inst)))
        ops = [cl.memo_edge(eng, st, t, a) for t, a in zip(kt, rest)]
        ex = self.memo_extra(run)
        if n == 'insert':
            p, z = cl.memo_edge(eng, st, rt, rest[len(kt)])
            sp = self.spec(cl, eng, st, ops, ex)
            why = cl.same_edge(eng, st, p, z, sp)
            if self.scalar and p not in TERMINALS:
                why = 'the recorded pointer is not the terminal'
            cl.check('memo', what + 'what is recorded in the memo table is the result for the recorded operands', why is None, st, inst, why)
            if 'CachedEdge' not in rt:
                w = cl.number(eng, st, aspval(ptr(as_ptr(rest[len(kt)]), 8)))
                cl.check('tab', 'weights recorded in memo tables are stored numbers', all(cl.is_table(t) for t in w), st, inst,
                         'the weight (%s, %s) is not a stored number' % (show(w[0]), show(w[1])))
            for t, a in zip(kt, rest):
                if 'CachedEdge' not in t:
                    w = cl.number(eng, st, aspval(ptr(as_ptr(a), 8)))
                    cl.check('tab', 'weights recorded in memo tables are stored numbers', all(cl.is_table(t) for t in w), st, inst,
                             'the weight (%s, %s) is not a stored number' % (show(w[0]), show(w[1])))
            return True
        x = self.expr(cl, st, ops, ex)
        out = []
        a = as_ptr(sret)
        # no result
        s0 = st.copy()
        cl.put_edge(eng, s0, sret, NULL, *((cl.lib.zero, cl.lib.zero) if 'CachedEdge' not in rt else (cf(0.0), cf(0.0))))
        out.append(s0)
        # some edge that denotes the operation applied to the key
        s1 = st.copy()
        p, w = (cl.lib.terms[self.nts[0]], x) if self.scalar else fresh('call', x, self.rlevel(cl, st, ops, ex))
        vals = (pvt(w.r), pvt(w.i)) if 'CachedEdge' in rt else (cl.tblc(w.r), cl.tblc(w.i))
        cl.put_edge(eng, s1, sret, p, *vals)
        out.append(s1)
        return out

    def memo_extra(self, run):
        return run.ex

    # -- analysis of the body
    def analyse(self, ctx, heads, sink):
        fn = self.lib.m.fn(self.fname)
        run = self.make_run(ctx, heads)
        cl = DClient(self.lib, run, heads, sink)
        eng = Engine(fn, cl, self.lib.m.statics, args=self.body_args(run), mem=self.body_mem(run))
        cl.eng = eng
        eng.run()
        ctx.ran(eng)
        if not cl.nret:
            raise AnalysisError('no path of %s returns' % self.full[:100])
        return run

    def body_args(self, run):
        return None

    def make_run(self, ctx, heads):
        return BodyRun(self, ctx, heads)

    def body_mem(self, run):
        return {(run.nodes[k], self.lib.voffs[self.nts[k]]): (1, run.node_level(k)) for k in range(len(run.nodes))}

    def check_result(self, run, cl, eng, st, inst, spec, kind, sret):
        cl.alive(st, inst)
        e = cl.edge(eng, st, sret)
        z = cl.zval(st, e[1:], inst)
        what = '%s: ' % run.name
        why = cl.same_edge(eng, st, e[0], z, spec)
        cl.check('sem', what + 'result', why is None, st, inst, why)
        w = e[1:]
        own = [c[0] for c in st.c.cells if cl.status(eng, st, c[0]) in ('own', 'maybe')]
        if kind == 'own':
            if cl.is_scratch(*w):
                c = st.c.get(w[0].a[1])
                cl.check('scr', what + 'the returned scratch number is still in use', c is not None and c[1] in ('own', 'own?'), st, inst,
                         'the weight of the returned edge was given back or is a temporary')
                own = [k for k in own if k != w[0].a[1]]
            else:
                cl.check('scr', what + 'the weight of the result is zero or a scratch number of its own', cl.eng.decide(st, cl.ez(st, w)) is True, st, inst,
                         'the weight of the result is (%s, %s)' % (show(w[0]), show(w[1])))
        else:
            ok = all(cl.is_table(t) for t in w)
            if not ok and cl.is_scratch(*w) and cl.status(eng, st, w[0].a[1]) == 'zero':
                ok = True
            cl.check('tab', what + 'the weight of the result is a stored number', ok, st, inst,
                     'the weight of the result is (%s, %s)' % (show(w[0]), show(w[1])))
        cl.check('scr', what + 'every scratch number taken is given back', not own, st, inst, '%d scratch number(s) are taken and not given back' % len(own))


class BodyRun:
    """state of the analysis of a head's body"""
    may_write_operand = False

    def __init__(self, head, ctx, heads):
        self.head, self.lib, self.heads, self.ctx = head, head.lib, heads, ctx
        self.name = strip_templates(head.full).split('::')[-1] + '<' + ','.join(n.split('::')[-1] for n in head.nts) + '>' + head.suffix
        self.operands = {A[head.argpos(j)] for j in head.eargs}
        self.tab_operands = self.operands if head.kind == 'tab' or head.tab_args else set()
        self.nodes = [mk('load', ptr(A[head.argpos(j)], 0), None) for j in head.eargs]
        self.lv = head.level_arg() if hasattr(head, 'level_arg') else mk('arg', 'level')
        self.tables = set()
        self.ex = head.extra(A)
        self.bases = [A[head.argpos(j)] for j in head.eargs]

    def may_write(self, cl, st, b, o):
        return False

    def number_call(self, cl, eng, st, inst, n, full, args):
        return None

    def feasible(self, cl, eng, st, a, val):
        if a[0] == 'peq' and self.head.any_levels:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y in TERMINALS and x in self.nodes:
                    lx = self.node_level(self.nodes.index(x))
                    for l in [l for l in map(self.node_level, range(len(self.nodes))) if cl.same_level(eng, st, l, lx)]:
                        c = mk('icmp', 'eq', l, ci(8, -1), 8)
                        d = eng.decide(st, c)
                        if not (d == val if d is not None else eng.add_atom(st, eng.norm_cmp(*c.a), val)):
                            return False
        return True

    def on_load(self, cl, eng, st, inst, a, val, size):
        return None

    def level_cell(self, cl, p, fr):
        return None

    def level(self, cl, st, p):
        if p in TERMINALS:
            return None
        if p.k == 'nd':
            fr = FR[p.a[0]]
            return fr[1] if fr[0] == 'node' else fr[2]
        if p in self.nodes:
            if cl.eng.decide(st, mk('pcmp', 'eq', p, self.lib.terms[self.head.nts[self.nodes.index(p)]])) is True:
                return None
            return self.node_level(self.nodes.index(p))
        if p.k == 'load':
            b, o = pbase(p.a[0]), poff(p.a[0])
            if o % 24 == 0 and b.k in ('load', 'nd'):
                up = self.level(cl, st, b)
                return None if up is None else t_add(8, up, ONE8, -1)
        return None

    def node_level(self, k):
        return mk('arg', 'level%d' % k) if self.head.any_levels else self.lv

    def equalities(self, cl, eng, st):
        """nodes that have to be the terminal at this level"""
        out = []
        for k, p in enumerate(self.nodes):
            if self.head.terminal(self, cl, eng, st, p):
                out.append((p, self.lib.terms[self.head.nts[k]]))
        return out

    def start(self, cl, st):
        return self.ex[1]

    def implied(self, cl, eng, st, a):
        if a[0] == 'peq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y in TERMINALS and x in self.nodes:
                    r = self.head.terminal(self, cl, eng, st, x)
                    if r is not None:
                        return r
                    # the operands are at the same level: terminal together
                    if len(self.nodes) > 1 and not cl.same_level(eng, st, self.node_level(0), self.node_level(1)):
                        break
                    for o in self.nodes:
                        if o is x:
                            continue
                        for T in TERMINALS:
                            n = eng.norm_pcmp('eq', o, T)
                            if n in (True, False):
                                continue
                            v = st.facts.get(('peq', n[1], n[2]))
                            if v is not None and (v or T is y or self.head.nts[0] != self.head.nts[-1]):
                                return v
                        n = eng.norm_pcmp('eq', o, x)
                        if self.head.nts[0] == self.head.nts[-1] and n not in (True, False) and st.facts.get(('peq', n[1], n[2])) is False:
                            return False
        return None

    def call(self, cl, eng, st, inst, short, full, args):
        if short.endswith('::garbageCollect') and 'Package' in short:
            cl.collect(st)
            st.env[inst.id] = eng.fresh(st, inst)
            return True
        if short in ('dd::mNode::isSymmetric', 'dd::mNode::isIdentity'):
            # what the flags of a stored node promise (C27)
            st.env[inst.id] = mk('same', 'sym' if short.endswith('Symmetric') else 'id', args[0])
            return True
        h = self.heads.get(inst.callee)
        if h is not None:
            return h.contract(self, cl, eng, st, inst, full, args)
        return self.head.extra_call(self, cl, eng, st, inst, short, full, args)

    def memo(self, cl, eng, st, inst, n, full, args):
        return self.head.memo(self, cl, eng, st, inst, n, full, args)

    def operand(self, cl, eng, st, k):
        e = cl.edge(eng, st, self.bases[k])
        return e[0], cl.zval(st, e[1:])

    def ret(self, cl, eng, st, inst, val):
        ops = [self.operand(cl, eng, st, k) for k in range(len(self.bases))]
        if self.head.scalar:
            return self.head.check_scalar(self, cl, eng, st, inst, ops, val)
        sp = self.head.spec(cl, eng, st, ops, self.ex)
        self.head.check_result(self, cl, eng, st, inst, sp, self.head.kind, A[self.head.sret])


Head.terminal = lambda self, run, cl, eng, st, x: None
Head.extra_call = lambda self, run, cl, eng, st, inst, short, full, args: None


def node_edge(cl, eng, st, p, k):
    """successor k of node p -> D"""
    return cl.D(st, cl.edge(eng, st, aspval(ptr(p, 24 * k))))


class Add(Head):
    def expr(self, cl, st, ops, ex):
        r = Z(0)
        for p, z in ops:
            if not z.zero():
                r = r + z * op_atom('N', (p,))
        return r

    def succ(self, cl, eng, st, ops, ex):
        n = 2 if self.nts[0].endswith('vNode') else 4
        return [ops[0][1] * node_edge(cl, eng, st, ops[0][0], k) + ops[1][1] * node_edge(cl, eng, st, ops[1][0], k) for k in range(n)]


class Mul(Head):
    """multiply2(x, y, var, start): var is the level of the operands, start the lowest level that counts"""

    def __init__(self, lib, name):
        Head.__init__(self, lib, name)
        self.qs = [j for j, p in enumerate(self.ps) if p == 'signed char']
        if len(self.qs) != 2:
            raise AnalysisError('multiplication: level arguments not recognised in ' + self.full[:120])

    def extra(self, args):
        return tuple(args[self.argpos(j)] for j in self.qs)

    def level_arg(self):
        return A[self.argpos(self.qs[0])]

    def expr(self, cl, st, ops, ex):
        (p, z), (q, w) = ops
        if z.zero() or w.zero():
            return Z(0)
        return z * w * op_atom('M', (p, q))

    def succ(self, cl, eng, st, ops, ex):
        (p, z), (q, w) = ops
        cols = 1 if self.nts[1].endswith('vNode') else 2
        out = []
        for i in range(2):
            for j in range(cols):
                t = Z(0)
                for k in range(2):
                    a = cl.edge(eng, st, aspval(ptr(p, 24 * (2 * i + k))))
                    b = cl.edge(eng, st, aspval(ptr(q, 24 * (cols * k + j))))
                    t = t + self.expr(cl, st, [(a[0], cl.zval(st, a[1:])), (b[0], cl.zval(st, b[1:]))], ex)
                out.append(z * w * t)
        return out

    def terminal(self, run, cl, eng, st, x):
        var, start = run.ex
        for w in (32, 8, 64):
            a, b = (var, start) if w == 8 else (t_cast('sext', w, var, 8), t_cast('sext', w, start, 8))
            r = eng.decide(st, mk('icmp', 'eq', a, t_add(w, b, ci(w, 1), -1), w))
            if r is not None:
                return r
        return None

    def pre(self, run, cl, eng, st, ops, ex, args):
        var, start = ex
        why = Head.pre(self, run, cl, eng, st, ops, ex, args)
        if why:
            return why
        if not cl.same_level(eng, st, start, run.start(cl, st)):
            return 'the lowest level changes from %s to %s' % (show(run.start(cl, st)), show(start))
        for p, z in ops:
            if z.zero():
                continue
            l = run.level(cl, st, p)
            if l is None:
                l = t_add(8, run.start(cl, st), ONE8, -1)
            if not cl.same_level(eng, st, l, var):
                return 'the level passed on is %s, the operand is at level %s' % (show(var), show(l))
        return None


class Transpose(Head):
    kind = 'tab'
    memo_ops = 1
    op, conj = 'Tr', False

    def expr(self, cl, st, ops, ex):
        (p, z), = ops
        if z.zero():
            return z
        return (z.conj() if self.conj else z) * op_atom(self.op, (p,))

    def succ(self, cl, eng, st, ops, ex):
        (p, z), = ops
        out = []
        for i in range(2):
            for j in range(2):
                e = cl.edge(eng, st, aspval(ptr(p, 24 * (2 * j + i))))
                out.append((z.conj() if self.conj else z) * self.expr(cl, st, [(e[0], cl.zval(st, e[1:]))], ex))
        return out


class ConjTranspose(Transpose):
    op, conj = 'H', True


class Inner(Head):
    """innerProduct(x, y, n): n levels, the first operand's own weight enters as it is, the weights below it conjugated"""
    scalar = True

    def __init__(self, lib, name):
        Head.__init__(self, lib, name)
        self.first, self.sret = 1, None
        self.qs = [j for j, p in enumerate(self.ps) if p == 'signed char']
        if len(self.qs) != 1:
            raise AnalysisError('inner product: level argument not recognised in ' + self.full[:120])

    def extra(self, args):
        return (args[self.argpos(self.qs[0])],)

    def level_arg(self):
        return t_add(8, A[self.argpos(self.qs[0])], ONE8, -1)

    def expr(self, cl, st, ops, ex):
        (p, z), (q, w) = ops
        if z.zero() or w.zero():
            return Z(0)
        return z * w * op_atom('I', (p, q))

    def spec(self, cl, eng, st, ops, ex):
        (p, z), (q, w) = ops
        t = Z(0)
        for k in range(2):
            a = cl.edge(eng, st, aspval(ptr(p, 24 * k)))
            b = cl.edge(eng, st, aspval(ptr(q, 24 * k)))
            t = t + self.expr(cl, st, [(a[0], cl.zval(st, a[1:]).conj()), (b[0], cl.zval(st, b[1:]))], ex)
        x = self.expr(cl, st, ops, ex)
        return {'formal': x, 'formals': [x] if self.terminal_now else [x, z * w * t]}

    terminal_now = False

    def terminal(self, run, cl, eng, st, x):
        for w in (32, 8, 64):
            a = run.ex[0] if w == 8 else t_cast('sext', w, run.ex[0], 8)
            r = eng.decide(st, mk('icmp', 'eq', a, ci(w, 0), w))
            if r is not None:
                return r
        return None

    def pre(self, run, cl, eng, st, ops, ex, args):
        why = Head.pre(self, run, cl, eng, st, ops, ex, args)
        if why:
            return why
        for p, z in ops:
            if z.zero():
                continue
            l = run.level(cl, st, p)
            if l is None and cl.same_level(eng, st, ex[0], ci(8, 0)):
                continue
            l = ci(8, -1) if l is None else l
            if not cl.same_level(eng, st, t_add(8, l, ONE8), ex[0]):
                return 'the number of levels passed on is %s, the operand is at level %s' % (show(ex[0]), show(l))
        return None

    def check_scalar(self, run, cl, eng, st, inst, ops, val):
        kn = cl.known(eng, st)
        rename, gs = kn
        if val is None or val.k != 'agg':
            raise AnalysisError('the result of %s is not understood' % run.name)
        z = Z(*[cl.fpval(x) for x in val.a])
        sp = self.spec(cl, eng, st, ops, run.ex)
        ok = any(cl.same(kn, z, x) for x in sp['formals'])
        cl.check('sem', '%s: result' % run.name, ok, st, inst, lambda: 'the result is %s instead of %s' % (rename(z), rename(sp['formals'][-1])))
        own = [c[0] for c in st.c.cells if cl.status(eng, st, c[0]) in ('own', 'maybe')]
        cl.check('scr', '%s: every scratch number taken is given back' % run.name, not own, st, inst, '%d scratch number(s) are taken and not given back' % len(own))


# ------------------------------------------------------------------------------------------------ public entry points
class Public:
    """the public function on top of a recursive operation: same meaning, the result's weight is a stored number"""
    kind = 'tab'
    suffix = ' (public)'

    def __init__(self, lib, wrapper, name):
        # the driver's wrapper (result, package, operands ...) is what is analysed
        Head.__init__(self, lib, name)
        self.fname = wrapper

    def succ(self, cl, eng, st, ops, ex):
        return None


class AddPublic(Public, Add):
    pass


class MulPublic(Public, Head):
    """multiply(x, y, start)"""
    zero_start = True
    expr = Mul.expr

    def extra(self, args):
        for j, p in enumerate(self.ps):
            if p == 'signed char':
                return (None, args[self.argpos(j)])
        raise AnalysisError('multiplication: start argument not recognised in ' + self.full[:120])

    def spec(self, cl, eng, st, ops, ex):
        return {'formal': self.expr(cl, st, ops, ex)}

    def body_args(self, run):
        if not self.zero_start:
            return None
        a = list(A[:self.first + len(self.ps)])
        for j, p in enumerate(self.ps):
            if p == 'signed char':
                a[self.argpos(j)] = ci(8, 0)
        return a

    def make_run(self, ctx, heads):
        r = BodyRun(self, ctx, heads)
        if self.zero_start:
            r.ex = (None, ci(8, 0))
        else:
            r.start_nonterminal = True
        r.name += ', from level 0' if self.zero_start else ', from any level'
        return r

    def terminal(self, run, cl, eng, st, x):
        return None if self.zero_start else False


class MulPublicAt(MulPublic):
    zero_start = False


class InnerPublic(Public, Head):
    scalar = True

    def expr(self, cl, st, ops, ex):
        (p, z), (q, w) = ops
        if z.zero() or w.zero():
            return Z(0)
        return z.conj() * w * op_atom('I', (p, q))

    def check_scalar(self, run, cl, eng, st, inst, ops, val):
        kn = cl.known(eng, st)
        x = self.expr(cl, st, ops, run.ex)
        z = Z(*[cl.fpval(eng.load(st, aspval(ptr(A[0], o)), 8, 'double')) for o in (0, 8)])
        cl.check('sem', '%s: result' % run.name, cl.same(kn, z, x), st, inst, lambda: 'the result is %s instead of %s' % (kn[0](z), kn[0](x)))


class Fidelity(InnerPublic):
    def __init__(self, lib, wrapper, name):
        InnerPublic.__init__(self, lib, wrapper, name)
        self.first, self.sret = 1, None

    def check_scalar(self, run, cl, eng, st, inst, ops, val):
        kn = cl.known(eng, st)
        x = self.expr(cl, st, ops, run.ex)
        x = Z(x.r * x.r + x.i * x.i)
        z = Z(cl.fpval(val))
        cl.check('sem', '%s: result' % run.name, cl.same(kn, z, x), st, inst, lambda: 'the result is %s instead of %s' % (kn[0](z), kn[0](x)))


class Expectation(Fidelity):
    """the real part of <y | x y>"""
    any_levels = True

    def make_run(self, ctx, heads):
        r = BodyRun(self, ctx, heads)
        r.ex = (None, ci(8, 0))
        return r

    def check_scalar(self, run, cl, eng, st, inst, ops, val):
        kn = cl.known(eng, st)
        z = Z(cl.fpval(val))
        (p, x), (q, y) = ops
        want = x * y * op_atom('M', (p, q))
        ok, alt = False, None
        if x.zero() or y.zero() or cl.same(kn, want, Z(0)):
            ok = cl.same(kn, z, Z(0))
        for k, fr in enumerate(FR):
            if not ok and fr[0] == 'call' and cl.same(kn, fr[1], want):
                alt = y.conj() * fweight(k) * op_atom('I', (q, mk('nd', k)))
                ok = cl.same(kn, z, Z(alt.r))
        cl.check('sem', '%s: result' % run.name, ok, st, inst, lambda: 'the result is %s, which is not the real part of <y|xy>' % kn[0](z))


# ------------------------------------------------------------------------------------------------ Kronecker products
class Kron(Head):
    """kronecker2(x, y, inc): x above y; with inc the levels of x are moved up by the number of levels of y"""
    any_levels = True
    tab_args = True

    inc = None

    @property
    def bs(self):
        bs = [j for j, p in enumerate(self.ps) if p == 'bool']
        if len(bs) != 1 or len(self.eargs) != 2:
            raise AnalysisError('Kronecker product: arguments not recognised in ' + self.full[:120])
        return bs

    def extra(self, args):
        return (args[self.argpos(self.bs[0])],)

    def memo_extra(self, run):
        return run.ex

    def expr(self, cl, st, ops, ex):
        (p, z), (q, w) = ops
        if z.zero() or w.zero():
            return Z(0)
        return z * w * op_atom('K', (p, q))

    def succ(self, cl, eng, st, ops, ex):
        (p, z), (q, w) = ops
        n = 2 if self.nts[0].endswith('vNode') else 4
        out = []
        for k in range(n):
            e = cl.edge(eng, st, aspval(ptr(p, 24 * k)))
            out.append(z * self.expr(cl, st, [(e[0], cl.zval(st, e[1:])), (q, w)], ex))
        return out

    def rlevel(self, cl, st, ops, ex):
        ls = [cl.op.level(cl, st, p) for p, z in ops]
        ls = [ci(8, -1) if l is None else l for l in ls]
        i = ex[0]
        if i.k == 'i':
            return t_add(8, t_add(8, ls[0], ls[1]), ONE8) if i.a[1] else ls[0]
        return None

    def pre(self, run, cl, eng, st, ops, ex, args):
        if run.ex[0] is not ex[0]:
            return 'whether levels are moved up is %s instead of %s' % (show(ex[0]), show(run.ex[0]))
        return None

    def body_args(self, run):
        a = list(A[:self.first + len(self.ps)])
        a[self.argpos(self.bs[0])] = ci(1, self.inc)
        return a

    def make_run(self, ctx, heads):
        r = KronRun(self, ctx, heads)
        r.roles = {}
        r.ex = (ci(1, self.inc),)
        r.name += ', levels moved up' if self.inc else ', levels kept'
        return r

    def analyse(self, ctx, heads, sink):
        runs = []
        for self.inc in (1, 0):
            dropped = set()
            for _ in range(20):
                buf = []
                self.dropped = dropped
                try:
                    runs.append(Head.analyse(self, ctx, heads, lambda *a: buf.append(a)))
                except Redo as e:
                    dropped.add(e.args[0])
                    continue
                break
            else:
                raise AnalysisError('the loops of %s are not understood' % self.full[:100])
            for b in buf:
                sink(*b)
        runs[0].tables |= runs[1].tables
        return runs[0]


class KronPublic(Public, Kron):
    """kronecker(x, y, inc): the same with a stored weight; may be refused (C21)"""

    def analyse(self, ctx, heads, sink):
        for self.inc in (1, 0):
            r = Head.analyse(self, ctx, heads, sink)
        return r

    def make_run(self, ctx, heads):
        r = BodyRun(self, ctx, heads)
        r.ex = (ci(1, self.inc),)
        r.name += ', levels moved up' if self.inc else ', levels kept'
        r.may_throw = True
        return r


class Redo(Exception):
    """an assumption about a loop turned out wrong: analyse again without it"""


def equal_lin(st, a, b):
    d = sub(rlin(a), rlin(b))
    return not d or (at_most(st, d) and at_most(st, {x: -c for x, c in d.items()}))


class KronRun(BodyRun):
    """identity (x) y is y wrapped in [e 0; 0 e] once per level: mk('ki', y, count) is y wrapped count times"""

    def ki(self, p):
        """(y, count) if p is the second operand wrapped count times"""
        if p.k == 'ki':
            return p.a
        return (p, ci(8, 0)) if p is self.nodes[1] else None

    def level(self, cl, st, p):
        if p.k == 'ki':
            l = BodyRun.level(self, cl, st, p.a[0])
            return t_add(8, ci(8, -1) if l is None else l, p.a[1])
        return BodyRun.level(self, cl, st, p)

    def on_load(self, cl, eng, st, inst, a, val, size):
        if a.a[0].k == 'ki' and size == 1 and a.a[1] in self.lib.voffs.values():
            return self.level(cl, st, a.a[0])
        return None

    def make_node(self, cl, eng, st, inst, sret, nt, v, es, cached):
        if len(es) != 4 or cached or es[0] != es[3] or self.ki(es[0][0]) is None:
            return None
        if any(eng.decide(st, cl.ez(st, es[j][1:])) is not True for j in (1, 2)):
            return None
        y, c = self.ki(es[0][0])
        l = self.level(cl, st, es[0][0])
        if l is None:
            l = ci(8, -1)
        if not equal_lin(st, t_add(8, l, ONE8), v):
            return None
        for e in (es[0], es[3]):
            cl.check('tab', 'successor weights of new nodes are stored numbers', all(cl.is_table(t) for t in e[1:]), st, inst,
                     'a successor weight (%s, %s) is not a number of the table' % (show(e[1]), show(e[2])))
        cl.kill_free(st)
        # both successors have the same weight, which therefore is the weight of the node (normal form, C30)
        cl.put_edge(eng, st, sret, mk('ki', y, t_add(8, c, ONE8)), *es[0][1:])
        return [st]

    def feasible(self, cl, eng, st, a, val):
        if a[0] == 'peq' and not val:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y in TERMINALS and x in self.nodes:
                    eng.add_atom(st, eng.norm_cmp('sle', ci(8, 0), self.node_level(self.nodes.index(x)), 8), True)
        return BodyRun.feasible(self, cl, eng, st, a, val)

    # -- loops: the number of iterations so far is n; edges that are y wrapped c times at the start are y wrapped c + n times
    def n(self, h):
        return mk('iter', h)

    def widen_phi(self, cl, eng, st, h, p):
        init = st.env[p.id]
        if ('phi', h, p.id) in self.head.dropped:
            return mk('phi', h, p.id)
        key = ('phi', h, p.id)
        r = self.roles.get(h, {}).get(key)
        if r is not None:
            if self.n(h) not in leaves(init) and not (r[0] == 'const' and init is r[1]) and init is not r[-1]:
                raise Redo(key)     # entered with different values
            return self.value(r, h)
        if p.ty == 'ptr':
            k = self.ki(init)
            if k is not None:
                r = ('ki',) + k + (init,)
            elif init.k in ('load', 'tbl', 'glob'):
                r = ('const', init)
        else:
            s = self.step(eng, h, p)
            if s is not None:
                r = ('int', int(p.ty[1:]), s, init)
        if r is None:
            return mk('phi', h, p.id)
        self.roles.setdefault(h, {})[key] = r
        return self.value(r, h)

    def value(self, r, h):
        if r[0] == 'int':
            return t_add(r[1], r[3], t_scale(r[1], self.n(h), r[2]))
        return mk('ki', r[1], t_add(8, r[2], self.n(h))) if r[0] == 'ki' else r[1]

    def step(self, eng, h, p):
        """constant added to an integer phi in every iteration"""
        ss = set()
        for v, pb in p.ops:
            if pb not in eng.fn.loops[h]:
                continue
            c, x = 0, v
            for _ in range(12):
                if x == ('v', p.id):
                    break
                i = eng.fn.insts.get(x[1]) if x[0] == 'v' else None
                if i is None:
                    return None
                if i.op in ('trunc', 'sext', 'zext', 'freeze'):
                    x = i.ops[0]
                elif i.op in ('add', 'sub') and i.ops[1][0] == 'i':
                    c += i.ops[1][2] if i.op == 'add' else -i.ops[1][2]
                    x = i.ops[0]
                else:
                    return None
            else:
                return None
            ss.add(c)
        return ss.pop() if len(ss) == 1 else None

    def loop_entry(self, cl, eng, st, h):
        self.pending = []
        locs = [k for k in st.mem if st.mem[k][0] == 8]
        for b, rs in st.rng.items():
            locs += [(b, o) for l, n, *_ in rs for o in range(l, l + n - 23, 24)]
        for b, o in sorted(set(locs), key=lambda k: (k[0].n, k[1])):
            if b.k == 'alloca' or b is A[self.head.sret]:
                if ('mem', b, o) not in self.head.dropped:
                    e = [eng.load(st, aspval(ptr(b, o + d)), 8, 'ptr') for d in (0, 8, 16)]
                    if self.ki(e[0]) is not None:
                        self.pending.append(((b, o), e))

    def widen_heap(self, cl, eng, st, h):
        # only the memory of the result is written besides locals
        eng.havoc_base(st, A[self.head.sret], ('loop', h))

    def header(self, cl, eng, st, h, back, k):
        if k >= 0:
            return
        eng.forget(st, self.n(h))
        if not back:
            for (b, o), e in self.pending:
                if [eng.load(st, aspval(ptr(b, o + d)), 8, 'ptr') for d in (0, 8, 16)] != e:
                    self.roles.setdefault(h, {}).setdefault(('mem', b, o), ('ki',) + self.ki(e[0]) + tuple(e[1:]))
            self.pending = []
            for b in self.bounds(cl, eng, st):
                if (h, b) not in self.head.dropped and not at_most(st, {x: -c for x, c in rlin(b).items()}):
                    raise Redo((h, b))
        for key, r in self.roles.get(h, {}).items():
            if key[0] == 'mem':
                eng.clear_range(st, key[1], key[2], 24)
                for o, v in ((0, self.value(r, h)), (8, r[3]), (16, r[4])):
                    st.mem[(key[1], key[2] + o)] = (8, v)
        for b in self.bounds(cl, eng, st):
            if (h, b) not in self.head.dropped:
                eng.add_atom(st, eng.norm_cmp('sle', self.n(h), t_cast('sext', 32, b, 8), 32), True)
        eng.add_atom(st, eng.norm_cmp('sle', ci(32, 0), self.n(h), 32), True)

    def bounds(self, cl, eng, st):
        """candidates for the largest number of iterations"""
        l = self.node_level(0)
        return [l, t_add(8, l, ONE8)]

    def backedge(self, cl, eng, st, h):
        if dict(st.it).get(h, -1) >= 0:
            return
        n = self.n(h)
        for key, r in self.roles.get(h, {}).items():
            if key[0] == 'phi':
                v = st.env[key[2]]
                if r[0] == 'const':
                    ok = v is r[1]
                elif r[0] == 'int':
                    ok = True       # by the form of the loop
                else:
                    ok = self.wrapped(v, r, n)
            else:
                c = [eng.load(st, aspval(ptr(key[1], key[2] + o)), 8, 'ptr') for o in (0, 8, 16)]
                ok = self.wrapped(c[0], r, n) and c[1] is r[3] and c[2] is r[4]
            if not ok:
                raise Redo(key)
        for b in self.bounds(cl, eng, st):
            if (h, b) not in self.head.dropped and not at_most(st, sub(rlin(t_add(8, n, ONE8)), rlin(b))):
                raise Redo((h, b))

    def wrapped(self, v, r, n):
        return v.k == 'ki' and v.a[0] is r[1] and rlin(v.a[1]) == rlin(t_add(8, t_add(8, r[2], n), ONE8))

    def identity(self, p, q):
        l = self.node_level(0)
        return mk('ki', q, t_add(8, l, ONE8)) if p is self.nodes[0] and (q is self.nodes[1] or q in TERMINALS) and self.head.inc else None

    def equalities(self, cl, eng, st):
        out = []
        want = t_add(8, self.node_level(0), ONE8)
        for (b, o), (sz, v) in st.mem.items():
            if v.k == 'ki' and rlin(v.a[1]) != rlin(want):
                d = sub(rlin(v.a[1]), rlin(want))
                if at_most(st, d) and at_most(st, {x: -c for x, c in d.items()}):
                    t = mk('ki', v.a[0], want)
                    if (v, t) not in out and v is not t:
                        out.append((v, t))
        return sorted(out, key=lambda x: x[0].n)
