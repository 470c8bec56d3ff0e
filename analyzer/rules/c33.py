"""C33: taking blocks out of diagrams (deleteEdge, reduceAncillae)."""
import llvmir
from common import *
from ops import *
from project import *
from project import cut as pcut
import build
import denote
from rules.opsrun import parallel, file_events, tables

UNITS = [('e_deleteEdge_v', Delete, DeletePublic), ('e_deleteEdge_m', Delete, DeletePublic), ('e_reduceAncillae', Reduce, ReducePublic)]


class InitClient(build.BuildClient):
    """createInitialMatrix: a referenced identity, reduced"""
    def k_incRef(self, eng, st, inst, short, full, args):
        self.effect(st, ('incRef', self.edge(eng, st, args[1])))
        return True

    def k_decRef(self, eng, st, inst, short, full, args):
        self.effect(st, ('decRef', self.edge(eng, st, args[1])))
        return True

    def k_reduceAncillae(self, eng, st, inst, short, full, args):
        e = self.edge(eng, st, args[2])
        t = mk('reduced', e[0], args[3], args[4])
        self.effect(st, ('reduce', e, args[3], args[4], self.made(t)))
        self.put_edge(eng, st, args[0], self.made(t))
        return True


def initial(ctx):
    m = ctx.module(['e_createInitialMatrix'], build.cut())
    cl = InitClient(denote.Lib(ctx, m))
    fn = m.fn('e_createInitialMatrix')
    eng = Engine(fn, cl, m.statics)
    eng.run()
    ctx.ran(eng)
    loc = fn.where(fn.blocks[0].insts[-1])
    nm = 'createInitialMatrix: '
    if not cl.finals:
        raise AnalysisError('no path of createInitialMatrix returns')
    for st, val in cl.finals:
        ef = [e for e in st.c[1] if e[0] in ('incRef', 'decRef', 'reduce')]
        tr = eng.trace(st)
        want = cl.made(mk('ident', ci(8, 0), mk('lin', 8, ((A[2], 1),), -1)))
        red = [e for e in ef if e[0] == 'reduce']
        if not ctx.ob(nm + 'an identity is reduced', len(red) == 1, '%d reductions' % len(red), loc, tr):
            continue
        r = red[0]
        ctx.ob(nm + 'it is the identity on as many levels as asked for', r[1] == want, 'it is %s' % show(r[1][0]), loc, tr)
        ctx.ob(nm + 'the levels reduced are those marked, by columns', r[2] is A[3] and r[3].k == 'i' and r[3].a[1] != 0, 'marks %s, by columns: %s' % (show(r[2]), show(r[3])), loc, tr)
        ctx.ob(nm + 'the result is the one referenced diagram', cl.edge(eng, st, A[0]) == r[4] and [e[:2] for e in ef] == [('incRef', r[1]), ('reduce', r[1])],
               'references: %s' % [e[0] for e in ef], loc, tr)


def check(ctx):
    ctx.rule('The value of every returned edge, as a polynomial over the successors of the operand, has zero for the addressed successors of the addressed levels and the reduced successor everywhere else, at the level of the operand; what is remembered for finished nodes is such a result.')
    ctx.rule('The bound below which reduceAncillae does not look lies at or below the lowest marked level, by induction over the loop that finds it; the reference to the operand is exchanged for one to the result exactly where a new diagram is returned.')
    ctx.assume = ['node construction (C30)', 'number arithmetic (C25, C14)', 'std::unordered_map and std::vector<bool> behave as documented', 'the list of marks has as many elements as the diagram has levels', 'the successor index given to deleteEdge exists']
    m = llvmir.Module(ctx.ir())
    heads, pubs = {}, []
    for r, hc, pc in UNITS:
        h, d = [x for x in m.heads(r) if '::UniqueTable' not in strip_templates(m.dname(x))], m.direct(r)
        if len(h) != 1 or len(d) != 1:
            raise AnalysisError('%d recursive functions and %d functions called by %s' % (len(h), len(d), r))
        heads[h[0]] = hc
        pubs.append((r, d[0], pc))
    roots = [u[0] for u in UNITS]
    m1 = ctx.module(roots, pcut)
    lib = Lib(ctx, m1)
    hs = {n: c(lib, n) for n, c in heads.items()}
    jobs = []
    for h in hs.values():
        jobs.append((m1.dname(h.fname)[:80], (lambda h: lambda sink: tables(h.analyse(ctx, hs, sink)))(h)))
    for r, n, pc in pubs:
        jobs.append((r, (lambda h: lambda sink: tables(h.analyse(ctx, hs, sink)))(pc(lib, r, n))))
    file_events(ctx, parallel(ctx, jobs), {'sem', 'ref'})
    initial(ctx)
