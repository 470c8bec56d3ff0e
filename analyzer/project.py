"""Operations that take blocks out of a diagram: deleteEdge(x, v, i, done) zeroes successor i of every node of level v, reduceAncillae zeroes the
columns (or rows) of the levels marked in a list."""
from ptrace import *

MAPS = ('std::unordered_map::', 'std::map::')


def cut(s, d):
    n = s.split('::')[-1]
    if s.startswith(MAPS):
        return True
    return (is_primitive(s, d) or n in ('makeDDNode', 'garbageCollect') or n in ('incRef', 'decRef') and s.startswith('dd::Package')
            or n == 'makeIdent' and s.startswith('dd::Package') or bits(s, d))


class Delete(Head):
    kind = 'tab'
    any_levels = True
    suffix = ' (delete)'

    def __init__(self, lib, name):
        Head.__init__(self, lib, name)
        self.args_()
        self.mj = [j for j, p in enumerate(self.ps) if p.startswith(('std::unordered_map<', 'std::map<'))]
        if len(self.mj) != 1:
            raise AnalysisError('deletion: arguments not recognised in ' + self.full[:120])

    def args_(self):
        v = [j for j, p in enumerate(self.ps) if p in ('signed char', 'int', 'short', 'long')]
        c = [j for j, p in enumerate(self.ps) if p in ('unsigned long', 'unsigned int')]
        if len(v) != 1 or len(c) != 1 or len(self.eargs) != 1:
            raise AnalysisError('deletion: arguments not recognised in ' + self.full[:120])
        self.vj, self.cj = v[0], c[0]

    def extra(self, args):
        return (args[self.argpos(self.vj)], args[self.argpos(self.cj)])

    def expr(self, cl, st, ops, ex):
        (p, z), = ops
        return z if z.zero() else z * op_atom('DEL', (p,))

    def spec(self, cl, eng, st, ops, ex):
        (p, z), = ops
        l = cl.op.node_level(0)
        f = [self.expr(cl, st, ops, ex)]
        sp = {'formal': f[0], 'formals': f, 'level': l}
        here = eng.decide(st, mk('icmp', 'eq', l, ex[0], 8))
        if here is None and rlin(l) == rlin(ex[0]):
            here = True
        if eng.decide(st, mk('icmp', 'slt', l, ex[0], 8)) is True:
            # every level below this one is lower still
            f.append(z * op_atom('N', (p,)))
        if here is not None:
            t = []
            for k in range(2 if self.nts[0] == 'dd::vNode' else 4):
                q, w = node_edge_(cl, eng, st, p, k)
                if not here:
                    t.append(z * self.expr(cl, st, [(q, w)], ex))
                    continue
                if ex[1].k != 'i':
                    return sp
                t.append(Z(0) if ex[1].a[1] == k else z * w * op_atom('N', (q,)))
            sp['succ'] = t
        return sp

    def terminal(self, run, cl, eng, st, x):
        return eng.decide(st, mk('icmp', 'eq', run.node_level(0), ci(8, -1), 8))

    def pre(self, run, cl, eng, st, ops, ex, args):
        if ex[0] is not run.ex[0]:
            return 'the level passed on is %s instead of %s' % (show(ex[0]), show(run.ex[0]))
        if ex[1] is not run.ex[1]:
            return 'the successor passed on is %s instead of %s' % (show(ex[1]), show(run.ex[1]))
        m = args[self.argpos(self.mj[0])]
        if not run.map_ok(cl, eng, st, m):
            return 'the table of finished nodes passed on is a different one or holds other results'
        return None

    # one analysis per successor the caller may name
    one = None

    def analyse(self, ctx, heads, sink):
        runs = []
        for k in range(2 if self.nts[0] == 'dd::vNode' else 4):
            self.one = ci(int(width(self.ps[self.cj])), k)
            runs.append(Head.analyse(self, ctx, heads, sink))
        for r in runs[1:]:
            runs[0].tables |= r.tables
        return runs[0]

    def body_args(self, run):
        a = list(A[:self.first + len(self.ps)])
        a[self.argpos(self.cj)] = self.one
        return a

    def make_run(self, ctx, heads):
        r = MapRun(self, ctx, heads)
        if self.one is not None:
            r.ex = (r.ex[0], self.one)
            r.name += ', successor %d' % self.one.a[1]
        return r


def width(ty):
    return 64 if 'long' in ty else 32


def node_edge_(cl, eng, st, p, k):
    d = cl.edge(eng, st, aspval(ptr(p, 24 * k)))
    return d[0], cl.zval(st, d[1:])


class MapRun(BodyRun):
    """a table of finished nodes: whatever it holds for a node is the result for an edge to that node with weight one"""
    def __init__(self, head, ctx, heads):
        BodyRun.__init__(self, head, ctx, heads)
        self.fresh_maps = set()
        mj = getattr(head, 'mj', [])
        self.maps = {A[head.argpos(j)] for j in mj}

    def map_ok(self, cl, eng, st, m):
        if m not in self.maps and m not in self.fresh_maps:
            return False
        return all(self.slot_bad(cl, eng, st, s) is None for s in self.slots(st) if s.a[0] is m)

    def slots(self, st):
        return {k[0] for k in st.mem if k[0].k == 'slot'}

    def slot_bad(self, cl, eng, st, s):
        e = cl.edge(eng, st, aspval(ptr(s, 0)))
        return self.entry_bad(cl, eng, st, s.a[1], e)

    def entry_bad(self, cl, eng, st, key, e):
        if e[0].k not in ('nd', 'load', 'glob') or not all(cl.is_table(t) for t in e[1:]):
            return 'something that is not a stored edge is recorded'
        z = cl.zval(st, e[1:])
        return cl.same_edge(eng, st, e[0], z, self.head.spec(cl, eng, st, [(key, Z(1))], self.ex))

    def on_load(self, cl, eng, st, inst, a, val, size):
        return None

    def call(self, cl, eng, st, inst, short, full, args):
        if short.startswith(MAPS):
            return self.keyed(cl, eng, st, inst, short.split('::')[-1], full, args)
        return BodyRun.call(self, cl, eng, st, inst, short, full, args)

    def found(self, cl, eng, st, m, key, dst):
        """a recorded edge for key, written to dst"""
        x = self.head.expr(cl, st, [(key, Z(1))], self.ex)
        p, w = fresh('call', x, self.node_level(0))
        cl.put_edge(eng, st, dst, p, cl.tblc(w.r), cl.tblc(w.i))

    def keyed(self, cl, eng, st, inst, n, full, args):
        if n in ('unordered_map', 'map', '~unordered_map', '~map', 'reserve', 'rehash', 'max_load_factor'):
            if n in ('unordered_map', 'map'):
                if any('const&' in p or '&&' in p for p in params(full)):
                    raise AnalysisError('%s: a table is made by %s' % (self.name, full[:120]))
                self.fresh_maps.add(args[0])
            if inst.ty != 'void':
                st.env[inst.id] = eng.fresh(st, inst)
            return True
        m = args[0]
        if n in ('end', 'cend'):
            st.env[inst.id] = mk('mend', m)
            return True
        if m not in self.maps and m not in self.fresh_maps:
            raise AnalysisError('%s: an unknown table is used in %s' % (self.name, eng.fn.where(inst)))
        what = '%s: what is recorded for a node is the result for it' % self.name
        if n in ('find', 'at', 'count', 'contains'):
            key = eng.load(st, aspval(args[1]), 8, 'ptr')
            s1 = st.copy()
            if n == 'find':
                it = mk('mit', m, key)
                s1.env[inst.id] = it
                s1.mem[(it, 8)] = (8, key)
                self.found(cl, eng, s1, m, key, aspval(ptr(it, 16)))
            elif n == 'at':
                s1.env[inst.id] = mk('mval', m, key)
                self.found(cl, eng, s1, m, key, aspval(ptr(s1.env[inst.id], 0)))
                return [s1]
            else:
                w = int(inst.ty[1:])
                s1.env[inst.id] = ci(w, 1)
            st.env[inst.id] = mk('mend', m) if n == 'find' else ci(int(inst.ty[1:]), 0)
            return [s1, st]
        if n == 'operator[]':
            key = eng.load(st, aspval(args[1]), 8, 'ptr')
            s = mk('slot', m, key)
            st.env[inst.id] = s
            if (s, 0) not in st.mem:
                cl.put_edge(eng, st, s, NULL, NULL, NULL)
            return True
        if n in ('emplace', 'try_emplace', 'insert_or_assign', 'insert') and inst.ty != 'void':
            if n == 'insert':
                key = eng.load(st, aspval(args[1]), 8, 'ptr')
                src = aspval(ptr(as_ptr(args[1]), 8))
            else:
                key = eng.load(st, aspval(args[1]), 8, 'ptr')
                src = args[2]
            why = self.entry_bad(cl, eng, st, key, cl.edge(eng, st, src))
            cl.check('sem', what, why is None, st, inst, why)
            st.env[inst.id] = eng.fresh(st, inst)
            return True
        raise AnalysisError('%s: no contract for %s called in %s' % (self.name, full[:120], eng.fn.where(inst)))

    def ret(self, cl, eng, st, inst, val):
        for s in self.slots(st):
            why = self.slot_bad(cl, eng, st, s)
            cl.check('sem', '%s: what is recorded for a node is the result for it' % self.name, why is None, st, inst, why)
        BodyRun.ret(self, cl, eng, st, inst, val)


class DeletePublic(Public, Delete):
    def __init__(self, lib, wrapper, name):
        Public.__init__(self, lib, wrapper, name)
        self.args_()

    def analyse(self, ctx, heads, sink):
        return Head.analyse(self, ctx, heads, sink)

    def body_args(self, run):
        return None

    def spec(self, cl, eng, st, ops, ex):
        return {'formal': self.expr(cl, st, ops, ex)}


# ------------------------------------------------------------------------------------------------ levels marked in a list
class Reduce(Trace):
    suffix = ' (reduce)'

    def is_operand(self, p):
        return p.startswith('dd::Edge<') and p.endswith('&')

    def __init__(self, lib, name):
        Head.__init__(self, lib, name)
        self.args_()
        l = [j for j, p in enumerate(self.ps) if p in ('signed char', 'int', 'short', 'long')]
        if len(l) != 1:
            raise AnalysisError('reduction: arguments not recognised in ' + self.full[:120])
        self.lj = l[0]

    def args_(self):
        v = [j for j, p in enumerate(self.ps) if p.startswith(VB)]
        b = [j for j, p in enumerate(self.ps) if p == 'bool']
        if len(v) != 1 or len(b) != 1 or len(self.eargs) != 1:
            raise AnalysisError('reduction: arguments not recognised in ' + self.full[:120])
        self.vj, self.bj = v[0], b[0]
        self.lj = None

    def extra(self, args):
        return (args[self.argpos(self.vj)], args[self.argpos(self.bj)], None if self.lj is None else args[self.argpos(self.lj)])

    def expr(self, cl, st, ops, ex):
        (p, z), = ops
        return z if z.zero() else z * op_atom('DEL', (p,))

    def rlevel(self, cl, st, ops, ex):
        return cl.op.level(cl, st, ops[0][0])

    def spec(self, cl, eng, st, ops, ex):
        (p, z), = ops
        l = cl.op.node_level(0)
        f = [self.expr(cl, st, ops, ex)]
        sp = {'formal': f[0], 'formals': f, 'level': l}
        if eng.decide(st, mk('nomark', ex[0])) is True or eng.decide(st, mk('icmp', 'eq', mk('cnt', ex[0]), ci(64, 0), 64)) is True or cl.op.below(cl, eng, st, l):
            f.append(z * op_atom('N', (p,)))
        e = eng.decide(st, mk('elim', ex[0], l))
        reg_ = eng.decide(st, nocast(ex[1]))
        if e is False or e and reg_ is not None:
            t = []
            for k in range(4):
                q, w = node_edge_(cl, eng, st, p, k)
                gone = e and ((k % 2 == 1) if reg_ else (k >= 2))
                t.append(Z(0) if gone else z * self.expr(cl, st, [(q, w)], ex))
            sp['succ'] = t
        return sp

    contract = Head.contract

    def check_result(self, run, cl, eng, st, inst, spec, kind, sret):
        l = run.node_level(0)
        if self.lj is not None and eng.decide(st, mk('icmp', 'slt', l, ci(8, 0), 8)) is True and eng.decide(st, mk('icmp', 'slt', l, run.ex[2], 8)) is False:
            return      # bounds are never negative
        Head.check_result(self, run, cl, eng, st, inst, spec, kind, sret)

    def pre(self, run, cl, eng, st, ops, ex, args):
        if ex[0] is not run.ex[0]:
            return 'the list of levels passed on is a different one'
        if nocast(ex[1]) is not nocast(run.ex[1]):
            return 'the kind of reduction passed on is %s instead of %s' % (show(ex[1]), show(run.ex[1]))
        if not run.bound_ok(cl, eng, st, ex[2]):
            return 'it is not known that no level below %s is marked' % show(ex[2])
        return None

    def make_run(self, ctx, heads):
        return ReduceRun(self, ctx, heads)


def nocast(t):
    for _ in range(6):
        c = [x for x in t.a if isinstance(x, T)] if t.k in ('cast', 'trunc', 'sext', 'zext') else []
        if len(c) != 1:
            return t
        t = c[0]
    return t


class ReduceRun(TraceRun):
    def __init__(self, head, ctx, heads):
        TraceRun.__init__(self, head, ctx, heads)
        self.refuted, self.refused, self.need, self.counter = set(), set(), {}, {}

    # lower bounds of the marked levels
    def bound_ok(self, cl, eng, st, b):
        if b.k == 'i':
            return b.a[1] == 0
        if self.head.lj is not None and b is self.ex[2]:
            return True
        x = nocast(b)
        if x is mk('fst', self.ex[0]):
            return True         # the position of the first mark
        if x.k == 'phi' and x in self.counter:
            self.need.setdefault(x, '')
            return True
        return False

    def below(self, cl, eng, st, l):
        """this level and all below are known not to be marked"""
        cs = [ci(8, 0)] + ([self.ex[2]] if self.head.lj is not None else [])
        cs += list(self.counter) + [mk('fst', self.ex[0])]
        for c in cs:
            t = t_cast('trunc', 8, c, 64) if c.k == 'fst' else c if c.k != 'phi' else t_cast('trunc', 8, c, self.counter[c]) if self.counter[c] != 8 else c
            if eng.decide(st, mk('icmp', 'slt', l, t, 8)) is True and self.bound_ok(cl, eng, st, c):
                return True
        return False

    step = KronRun.step

    def widen_phi(self, cl, eng, st, h, p):
        x = mk('phi', h, p.id)
        if p.ty.startswith('i') and p.ty != 'i1':
            init = st.env[p.id]
            if x not in self.refused and self.step(eng, h, p) == 1 and (init.k == 'i' and init.a[1] == 0 or x in leaves(init)):
                self.counter[x] = int(p.ty[1:])
            elif x in self.counter:
                self.refuted.add(x)
            else:
                self.refused.add(x)
        return x

    def widen_heap(self, cl, eng, st, h):
        eng.havoc_base(st, A[self.head.sret], ('loop', h))

    def backedge(self, cl, eng, st, h):
        v = self.ex[0]
        for x in list(self.counter):
            if x.a[0] != h:
                continue
            ok = any(k[0] in ('b', 'bool') and isinstance(k[1], T) and k[1].k == 'elim' and k[1].a[0] is v and nocast(k[1].a[1]) is x and val is False
                     for k, val in st.facts.items())
            if not ok:
                self.refuted.add(x)

    def call(self, cl, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if n in ('incRef', 'decRef') and short.startswith('dd::Package'):
            e = cl.edge(eng, st, args[1])
            st.c = st.c.add_event((n, e))
            return True
        return TraceRun.call(self, cl, eng, st, inst, short, full, args)


class ReducePublic(Public, Reduce):
    """reduceAncillae(x, marks, regular): the caller's reference to x becomes one to the result"""
    def __init__(self, lib, wrapper, name):
        Public.__init__(self, lib, wrapper, name)
        self.args_()

    spec = Reduce.spec

    def analyse(self, ctx, heads, sink):
        run = Head.analyse(self, ctx, heads, sink)
        fn = self.lib.m.fn(self.fname)
        run.loc = fn.where(fn.blocks[0].insts[-1])
        for x in run.need:
            sink('sem', '%s: no level below the bound is marked' % run.name, x not in run.refuted,
                 'the loop that looks for the lowest marked level passes over levels that are marked', run.loc, [])
        return run

    def check_result(self, run, cl, eng, st, inst, spec, kind, sret):
        Head.check_result(self, run, cl, eng, st, inst, spec, kind, sret)
        r = cl.edge(eng, st, sret)
        x = cl.edge(eng, st, run.bases[0])
        ev = sorted(st.c.ev, key=str)
        want = sorted([('decRef', x), ('incRef', r)], key=str)
        ok = ev == want or r == x and ev == []
        cl.check('ref', '%s: the reference to the operand becomes one to the result' % run.name, ok, st, inst,
                 lambda: 'counted: %s' % ', '.join('%s of %s' % (n, show(e[0])) for n, e in st.c.ev))
