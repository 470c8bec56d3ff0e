"""Runs the analyses of the recursive operations (ops.py) in parallel and hands the outcomes of the wanted categories to a check."""
import os, multiprocessing, traceback
from common import *
import ops
import nodes
from ops import *
from ptrace import Trace, TracePublic, FullTrace, bits

# driver wrapper -> (what the recursive operation means, what the public function on top of it means, groups)
UNITS = [
    ('e_add_v', Add, (AddPublic,), 'arith'), ('e_add_m', Add, (AddPublic,), 'arith'),
    ('e_multiply_mv', Mul, (MulPublic, MulPublicAt), 'arith'), ('e_multiply_mm', Mul, (MulPublic, MulPublicAt), 'arith'),
    ('e_transpose', Transpose, (), 'linear'), ('e_conjugateTranspose', ConjTranspose, (), 'linear'),
    ('e_innerProduct', Inner, (InnerPublic,), 'linear'),
    ('e_kronecker_v', Kron, (KronPublic,), 'kron'), ('e_kronecker_m', Kron, (KronPublic,), 'kron'),
    ('e_partialTrace', Trace, (TracePublic,), 'trace'), ('e_trace', None, (FullTrace,), 'trace'),
    ('e_fidelity', None, (Fidelity,), 'linear'), ('e_expectationValue', None, (Expectation,), 'linear'),
]

ALL = {u[3] for u in UNITS}
MEMO_UNITS = [u for u in UNITS if u[1] not in (None, Trace)]


def operation(root):
    """name of the operation a wrapper stands for (one per operand kinds)"""
    return root


def cut(s, d):
    return is_primitive(s, d) or s.endswith('::makeDDNode') or s.endswith('::garbageCollect') or bits(s, d)


def prepare(ctx, roots):
    m = llvmir.Module(ctx.ir())
    heads, pubs = {}, []
    for r, hc, pcs, g in UNITS:
        if hc is not None:
            h = m.heads(r)
            if len(h) != 1:
                raise AnalysisError('%d recursive functions reached from %s' % (len(h), r))
            heads[h[0]] = hc
        for pc in pcs:
            d = m.direct(r)
            if len(d) != 1:
                raise AnalysisError('%d functions called by %s' % (len(d), r))
            pubs.append((r, d[0], pc, g))
    return heads, pubs


def tables(run_):
    return [show(t) for t in run_.tables]


def run(ctx, groups, cats, only=None, node_kinds=()):
    roots = [u[0] for u in UNITS]
    hmap, pubs = prepare(ctx, roots)
    m1 = ctx.module(roots, cut)
    lib = Lib(ctx, m1)
    heads = {n: c(lib, n) for n, c in hmap.items()}
    jobs = []
    for r, hc, pcs, g in UNITS:
        if g in groups and hc is not None:
            h = [h for h in heads.values() if h.fname in m1.heads(r)][0]
            jobs.append((r, (lambda h: lambda sink: tables(h.analyse(ctx, heads, sink)))(h)))
    for r, n, pc, g in pubs:
        if g in groups:
            jobs.append((r, (lambda h: lambda sink: tables(h.analyse(ctx, heads, sink)))(pc(lib, r, n))))
    if only:
        jobs = [j for j in jobs if any(o in j[0] for o in only)]
    if node_kinds:
        jobs = nodes.jobs(ctx, node_kinds) + jobs
    res = parallel(ctx, jobs)
    file_events(ctx, res, cats)
    return res


JOBS = []


def child(i):
    """one job in a forked process: events are collected, equal ones counted"""
    r, fn, ctx = JOBS[i]
    seen, order = {}, []

    def sink(cat, what, ok, detail, where, trace):
        k = (cat, what, bool(ok))
        if k in seen:
            order[seen[k]][1] += 1
            return
        seen[k] = len(order)
        order.append([(cat, what, bool(ok), str(detail() if callable(detail) else detail)[:1500], where, [str(t) for t in trace]), 1])
    try:
        tabs = fn(sink) or []
        return (r, ([(e, n) for e, n in order], tabs), ctx.stats, ctx.functions, None)
    except AnalysisError as e:
        return (r, None, None, None, '%s: %s' % (r, e))
    except Exception:
        return (r, None, None, None, '%s: internal error\n%s' % (r, traceback.format_exc()))


def parallel(ctx, jobs):
    """jobs: (label, function of a sink)"""
    global JOBS
    JOBS = [(r, fn, ctx) for r, fn in jobs]
    base = dict(ctx.stats)
    out = []
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        for r, val, stats, fns, err in pool.imap(child, range(len(JOBS)), 1):
            if err:
                raise AnalysisError(err)
            for k in stats:
                ctx.stats[k] += stats[k] - base[k]
            ctx.functions |= fns
            out.append((r, val))
    return out


def file_events(ctx, res, cats):
    for r, (events, tables) in res:
        for (cat, what, ok, detail, where, trace), n in events:
            if cat in cats:
                ctx.ob(what, ok, detail, where, trace)
                ctx.obs[what][1] += n - 1
