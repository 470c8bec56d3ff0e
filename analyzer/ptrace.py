"""Partial trace: trace(x, eliminate, already) sums the diagonal blocks of the levels marked in eliminate, of which `already` lie above x.
The marks are opaque: which level is marked is a fact of the path, the number of marks a term."""
from ops import *
import llvmir

VB = 'std::vector<bool'


def bits(short, full):
    """functions of std::vector<bool> and algorithms over its iterators, which are not looked into"""
    n = short.split('::')[-1]
    if short.startswith('std::vector::'):
        return VB in full.split('(')[0] and n in ('operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'vector', '~vector', 'size')
    if n in ('operator==', 'operator!=', 'operator-'):
        return short.startswith('std::') and full.count('_Bit_iterator_base const&') == 2
    return short.startswith('std::') and n in ('count', 'count_if', 'none_of', 'any_of', 'all_of', 'find', 'find_if') and '_Bit_' in full


class Trace(Head):
    kind = 'tab'
    any_levels = True
    suffix = ' (trace)'

    def __init__(self, lib, name):
        Head.__init__(self, lib, name)
        v = [j for j, p in enumerate(self.ps) if p.startswith(VB)]
        c = [j for j, p in enumerate(self.ps) if p in ('unsigned long', 'unsigned int')]
        if len(v) != 1 or len(c) != 1 or len(self.eargs) != 1:
            raise AnalysisError('trace: arguments not recognised in ' + self.full[:120])
        self.vj, self.cj = v[0], c[0]

    def extra(self, args):
        return (args[self.argpos(self.vj)], args[self.argpos(self.cj)])

    def expr(self, cl, st, ops, ex):
        (p, z), = ops
        return z if z.zero() else z * op_atom('TR', (p,))

    def result_level(self, l, ex):
        return t_add(8, t_add(8, l, t_cast('trunc', 8, mk('cnt', ex[0]), 64), -1), t_cast('trunc', 8, ex[1], 64))

    def rlevel(self, cl, st, ops, ex):
        l = cl.op.level(cl, st, ops[0][0])
        return None if l is None else self.result_level(l, ex)

    def spec(self, cl, eng, st, ops, ex):
        (p, z), = ops
        f = [self.expr(cl, st, ops, ex)]
        e = eng.decide(st, mk('elim', ex[0], cl.op.node_level(0)))
        sp = {'formal': f[0], 'formals': f, 'level': self.result_level(cl.op.node_level(0), ex)}
        if eng.decide(st, mk('nomark', ex[0])) is True or eng.decide(st, mk('icmp', 'eq', mk('cnt', ex[0]), ci(64, 0), 64)) is True:
            sp = {'formal': z * op_atom('N', (p,))}
        elif e is not None and cl.op.level(cl, st, p) is not None:
            t = []
            for k in range(4):
                d = cl.edge(eng, st, aspval(ptr(p, 24 * k)))
                t.append(z * self.expr(cl, st, [(d[0], cl.zval(st, d[1:]))], ex))
            if e:
                sp['formals'] = f + [t[0] + t[3]]
                sp['formal'] = sp['formals'][-1]
            else:
                sp['succ'] = t
        return sp

    def terminal(self, run, cl, eng, st, x):
        return eng.decide(st, mk('icmp', 'eq', run.node_level(0), ci(8, -1), 8))

    def contract(self, run, cl, eng, st, inst, full, args):
        out = Head.contract(self, run, cl, eng, st, inst, full, args)
        if getattr(run, 'all', None) is not None:
            # nothing but the terminal is left
            for s in out:
                e = cl.edge(eng, s, args[self.sret])
                z = cl.zval(s, e[1:]) * op_atom('N', (e[0],))
                x = FR[e[0].a[0]][1] if e[0].k == 'nd' else z
                cl.put_edge(eng, s, args[self.sret], self.lib.terms[self.nts[0]], cl.tblc(x.r), cl.tblc(x.i))
        return out

    def pre(self, run, cl, eng, st, ops, ex, args):
        if hasattr(run, 'all'):
            if run.all is None or ex[0] is not run.all:
                return 'the levels eliminated are not all levels'
            return None if ex[1] is ci(64, 0) else 'the number of levels eliminated so far is not 0'
        vec, n = run.ex
        if ex[0] is not vec:
            return 'the list of levels passed on is a different one'
        e = eng.decide(st, mk('elim', vec, run.node_level(0)))
        if ops[0][0] is run.nodes[0]:
            e = False
        elif e is None:
            return 'it is not known whether the level is eliminated'
        if rlin(ex[1]) != rlin(t_add(64, n, ci(64, 1)) if e else n):
            return 'the number of eliminated levels passed on is %s instead of %s' % (show(ex[1]), show(n) + (' + 1' if e else ''))
        return None

    def make_run(self, ctx, heads):
        return TraceRun(self, ctx, heads)


class TraceRun(BodyRun):
    def predicate(self, cl, full):
        """the predicate handed to an algorithm is the mark itself (True), its negation (False) or something else"""
        m = llvmir.Module(self.ctx.ir())       # functions not yet inlined
        key = full[full.index('::{lambda'):] if '::{lambda' in full else None
        if key is None:
            return None
        lam = key[:key.index('}') + 1]
        pre = full[:full.index('::{lambda')].split('<std::_Bit_const_iterator, ')[-1].split('<std::_Bit_iterator, ')[-1]
        out = {identity_of(m.fn(n)) for n in m.find(lambda s, d: d.startswith(pre + lam + '::operator()'))}
        return out.pop() if len(out) == 1 else None

    def call(self, cl, eng, st, inst, short, full, args):
        if not bits(short, full):
            return BodyRun.call(self, cl, eng, st, inst, short, full, args)
        n = short.split('::')[-1]
        if n in ('vector', '~vector'):
            return self.head.construct(self, cl, eng, st, inst, n, full, args)
        if short.startswith('std::vector::'):
            v = args[0]
            if not full.endswith(' const'):
                cl.check('sem', '%s: the list of levels is not changed' % self.name, False, st, inst, full[:100])
            if n in ('operator[]', 'at'):
                i = args[1]
                l = self.node_level(0)
                if rlin(i) == rlin(l):
                    i = l
                st.env[inst.id] = mk('elim', v, i)
            elif n in ('begin', 'cbegin'):
                st.env[inst.id] = mk('agg', mk('vbeg', v), ci(32, 0))
            elif n in ('end', 'cend'):
                st.env[inst.id] = mk('agg', mk('vend', v), mk('vendo', v))
            else:
                st.env[inst.id] = mk('vsize', v)
            return True
        if n.startswith('operator'):
            (p, _), (q, _) = ((eng.load(st, aspval(a), 8, 'ptr'), None) for a in args[:2])
            v = p.a[0] if p.k in ('vbeg', 'vend', 'vfnd') else None
            if q.k not in ('vbeg', 'vend', 'vfnd') or v is None or q.a[0] is not v:
                st.env[inst.id] = eng.fresh(st, inst)
            elif n == 'operator-':
                st.env[inst.id] = mk('fst', v) if (p.k, q.k) == ('vfnd', 'vbeg') else mk('vsize', v) if (p.k, q.k) == ('vend', 'vbeg') else eng.fresh(st, inst)
            elif {p.k, q.k} == {'vfnd', 'vend'}:
                st.env[inst.id] = mk('nomark', v) if n == 'operator==' else mk('not', mk('nomark', v))
            else:
                st.env[inst.id] = eng.fresh(st, inst)
            return True
        if not (args[0].k == 'vbeg' and args[2].k == 'vend' and args[0].a[0] is args[2].a[0]):
            st.env[inst.id] = eng.fresh(st, inst)       # some part of the list: nothing is known
            return True
        v = args[0].a[0]
        if n == 'count':
            x = eng.load(st, aspval(args[4]), 1, 'i8')
            st.env[inst.id] = mk('cnt', v) if x is ci(8, 1) else eng.fresh(st, inst)
            return True
        if n == 'find':
            x = eng.load(st, aspval(args[4]), 1, 'i8')
            st.env[inst.id] = mk('agg', mk('vfnd', v), mk('vfndo', v)) if x is ci(8, 1) else eng.fresh(st, inst)
            return True
        p = self.predicate(cl, full)
        if n == 'find_if' and p is True:
            st.env[inst.id] = mk('agg', mk('vfnd', v), mk('vfndo', v))
            return True
        if n == 'count_if':
            st.env[inst.id] = mk('cnt', v) if p is True else eng.fresh(st, inst)
        elif p is True and n in ('none_of', 'any_of'):
            t = mk('nomark', v)
            st.env[inst.id] = t if n == 'none_of' else mk('not', t)
        elif p is False and n == 'all_of':
            st.env[inst.id] = mk('nomark', v)
        else:
            st.env[inst.id] = eng.fresh(st, inst)
        return True

class TracePublic(Public, Trace):
    """partialTrace(x, eliminate)"""
    def __init__(self, lib, wrapper, name):
        Public.__init__(self, lib, wrapper, name)
        v = [j for j, p in enumerate(self.ps) if p.startswith(VB)]
        if len(v) != 1 or len(self.eargs) != 1:
            raise AnalysisError('partial trace: arguments not recognised in ' + self.full[:120])
        self.vj = v[0]

    def extra(self, args):
        return (args[self.argpos(self.vj)], ci(64, 0))


class FullTrace(Public, Trace):
    """trace(x): every level is eliminated, the value of the result is returned"""
    scalar = True

    def __init__(self, lib, wrapper, name):
        Head.__init__(self, lib, name)
        self.fname = wrapper

    def extra(self, args):
        return (None, ci(64, 0))

    def construct(self, run, cl, eng, st, inst, n, full, args):
        ps = params(full)
        if n == 'vector':
            if not (len(ps) == 3 and ps[1].replace(' ', '') == 'boolconst&' and run.all is None):
                raise AnalysisError('%s: the list of levels made by %s is not understood' % (run.name, full[:120]))
            x = eng.load(st, aspval(args[2]), 1, 'i8')
            nq = mk('load', ptr(A[1], self.nqoff), None)
            d = sub(rlin(args[1]), {y: c for y, c in rlin(args[1]).items() if y != 1 and y.k == 'load' and as_ptr(y.a[0]) is ptr(A[1], self.nqoff)})
            ok = x is ci(8, 1) and len(rlin(args[1])) - len(d) == 1 and set(d) <= {1} and d.get(1, 0) >= 0
            cl.check('sem', '%s: all levels of the package are eliminated' % run.name, ok, st, inst,
                     lambda: '%s elements with value %s are marked' % (show(args[1]), show(x)))
            run.all = args[0]
        return True

    def make_run(self, ctx, heads):
        r = TraceRun(self, ctx, heads)
        r.all = None
        self.nqoff = ctx.di().layout('Package')['nqubits']
        return r

    def check_scalar(self, run, cl, eng, st, inst, ops, val):
        kn = cl.known(eng, st)
        x = self.expr(cl, st, ops, run.ex)
        z = Z(*[cl.fpval(eng.load(st, aspval(ptr(A[0], o)), 8, 'double')) for o in (0, 8)])
        cl.check('sem', '%s: result' % run.name, cl.same(kn, z, x), st, inst, lambda: 'the result is %s instead of %s' % (kn[0](z), kn[0](x)))


def identity_of(fn):
    if len(fn.blocks) != 1:
        return None
    r = fn.blocks[0].insts[-1]
    if r.op != 'ret' or not r.ops:
        return None
    x, pos = r.ops[0], True
    for _ in range(12):
        if x == ('v', fn.args[1]):
            return pos
        i = fn.insts.get(x[1]) if x[0] == 'v' else None
        if i is None:
            return None
        if i.op in ('trunc', 'zext', 'freeze'):
            x = i.ops[0]
        elif i.op == 'load':
            ss = [s for s in fn.blocks[0].insts if s.op == 'store' and s.ops[1] == i.ops[0]]
            if len(ss) != 1:
                return None
            x = ss[0].ops[0]
        elif i.op == 'xor' and i.ops[1][0] == 'i' and i.ops[1][2] in (1, -1):
            x, pos = i.ops[0], not pos
        else:
            return None
    return None
