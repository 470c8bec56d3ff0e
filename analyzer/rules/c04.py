"""C04: reference counting of nodes and numbers."""
from common import *
from absint import *
from loops import *
from roles import *
from rules.c02 import mkstate

STATIC_NUMBERS = ('zero', 'one', 'sqrt2_2')


class RefClient(LogClient):
    """stores are logged as increments of the location where possible"""

    def __init__(self, rec_name=None, table_arg=None):
        super().__init__()
        self.rec = rec_name
        self.tab = table_arg

    def store(self, eng, st, inst, addr, val, size):
        if pbase(addr).k == 'alloca':
            return None
        old = eng.load(st, addr, size)
        d = t_add(size * 8, val, old, -1) if size < 16 else None
        addr = aspval(as_ptr(addr))
        if d is not None and d.k == 'i':
            if d.a[1] != 0:
                self.effect(st, ('add', addr, d.a[1]))
        else:
            self.effect(st, ('set', addr, val))
        return None

    def call(self, eng, st, inst, short, full, args):
        if self.rec and inst.callee == self.rec:
            self.effect(st, ('rec', args[0], aspval(as_ptr(args[1]))))
            t = eng.fresh(st, inst)
            eng.havoc_base(st, mk('arg', 0), t)
            for b in [b for b in st.mem if b[0].k != 'alloca' and b[0] is not mk('arg', 0)]:
                pass
            return True
        meth = short.split('::')[-1]
        if short in ('dd::ComplexTable::incRef', 'dd::ComplexTable::decRef'):
            self.effect(st, ('n' + meth, args[0]))
            return True
        if short.startswith('std::') or not short.startswith('dd::'):
            return None
        self.effect(st, ('call', short, tuple(args)))
        st.env[inst.id] = eng.fresh(st, inst)
        return True


def static_number(mod, name):
    for n in mod.statics:
        d = mod.dname(n)
        if d.startswith('dd::ComplexTable') and d.endswith('::' + name):
            return mk('glob', n)
    raise AnalysisError('static number %s is not in the unit' % name)


def completions(eng, st, conds):
    """all ways to decide the conditions consistently with the facts: [(state, [bool...])]"""
    out = [(st, [])]
    for c in conds:
        out = [(s2, vs + [v]) for s, vs in out for s2, v in eng.split(s, c)]
    return out


def pcmp(a, b):
    return mk('pcmp', 'eq', a, b)


def is_static_number(eng, st, statics, x):
    """is the number behind (possibly tagged) pointer x certainly one of the static numbers (or absent)?"""
    for s in statics + [NULL]:
        for t in (x, tag_ptr(x, '0kk')):
            if eng.decide(st, pcmp(t, s)) is True:
                return True
    return False


def number_part(ctx, eng, st, eff, statics, comps, kind, tag, where, tr):
    """each component's count moved exactly once unless the component is a static number"""
    calls = [e[1] for e in eff if e[0] == kind]
    other = [e for e in eff if e[0] in ('nincRef', 'ndecRef') and e[0] != kind]
    for nm, c in comps:
        n = sum(1 for x in calls if x is c)
        ok = n == 1 or (n == 0 and is_static_number(eng, st, statics, c))
        ctx.ob('%s: weight component %s counted' % (tag, nm), ok, 'the %s part of the weight is %s %d times on this path' % (nm, kind[1:], n), where, tr)
    ctx.ob('%s: no other number counted' % tag, not other and all(x in [c for _, c in comps] for x in calls), 'other numbers are counted: %s %s' % (other, calls), where, tr)


def node_counts(ctx, m, di, s, up):
    meth = 'incRef' if up else 'decRef'
    root = 'u_%s_%s' % (meth, s)
    tag = '%sNode %s' % (s, meth)
    fn = m.fn(root)
    rec = [i.callee for b in fn.blocks for i in b.insts if i.op == 'call' and i.callee in m.recursive]
    name = rec[0] if len(rec) == 1 else root
    fn = m.fn(name)
    cl = RefClient(name)
    eng = Engine(fn, cl, m.statics).run()
    ctx.ran(eng)
    lay = di.layout(s + 'Node')
    nkids = {'v': 2, 'm': 4, 'd': 4}[s]
    t, ea = mk('arg', 0), mk('arg', 1)
    P = mk('load', ptr(ea, 0), None)
    W = [('real', mk('load', ptr(ea, 8), None)), ('imaginary', mk('load', ptr(ea, 16), None))]
    statics = [static_number(m, n) for n in STATIC_NUMBERS]
    term = terminal(m, s)
    off_act = getter_offset(m, 'u_getActiveNodeCount_' + s)
    e2, c2 = run_fn(m, 'u_getActiveNodeCountVar_' + s)
    vals = [r[4] for r in c2.rets]
    vecoff = None
    for v in vals:
        for x in leaves(v):
            if x.k == 'idx' and x.a[0].k == 'load' and pbase(x.a[0].a[0]) is t:
                vecoff = poff(x.a[0].a[0])
    if vecoff is None:
        raise AnalysisError('per-variable active node counts not found')
    R = mk('load', ptr(P, lay['ref']), None)
    where = fn.where(fn.blocks[0].insts[0])
    for b in fn.blocks:
        for i in b.insts:
            if i.op == 'call' and i.callee == name:
                where = fn.where(i)
    outcomes = [(r[1], r[2], 'return', r[5]) for r in cl.rets] + [(r[2], r[3], r[0], r[5]) for r in cl.ends]
    n = 0
    for eff, facts, kind, tr in outcomes:
        st = mkstate(facts)
        if kind == 'return':
            number_part(ctx, eng, st, eff, statics, W, 'n' + meth, tag, where, tr)
        mx = ci(32, -1)
        for s2, (nul, trm) in completions(eng, st, [pcmp(P, NULL), pcmp(P, term)]):
            node_eff = [e for e in eff if e[0] in ('add', 'set', 'rec', 'call')]
            if nul or trm:
                ctx.ob('%s: null and terminal nodes are not counted' % tag, not node_eff and kind == 'return', 'effects on a %s node: %s' % ('null' if nul else 'terminal', node_eff), where, tr)
                continue
            for s3, (sat, zero) in completions(eng, s2, [mk('icmp', 'eq', R, mx, 32), mk('icmp', 'eq', R, ci(32, 0), 32)]):
                refs = [e for e in node_eff if e[0] in ('add', 'set') and e[1] is aspval(ptr(P, lay['ref']))]
                recs = [e for e in node_eff if e[0] == 'rec']
                acts = [e for e in node_eff if e[0] in ('add', 'set') and e[1] is aspval(ptr(t, off_act))]
                perv = [e for e in node_eff if e[0] in ('add', 'set') and is_perv(e[1], t, vecoff, P, lay['v'])]
                other = [e for e in node_eff if e not in refs and e not in recs and e not in acts and e not in perv and
                         not (pbase(e[1]) is t)]
                if sat:
                    ctx.ob('%s: a saturated count never changes' % tag, not refs and not recs and not acts and not perv and kind == 'return', 'a saturated count is changed: %s' % node_eff, where, tr)
                    continue
                if not up and zero:
                    ctx.ob('%s: releasing an unreferenced node is an error and changes no node' % tag, kind == 'throw' and not refs and not recs and not acts and not perv,
                           'releasing a node with reference count 0 %s: %s' % ('returns' if kind == 'return' else 'throws after changes', node_eff), where, tr)
                    continue
                n += 1
                d = 1 if up else -1
                ctx.ob('%s: count moves by exactly one' % tag, refs == [('add', aspval(ptr(P, lay['ref'])), d)] and kind == 'return', 'the node\'s reference count changes by %s (%s)' % (refs, kind), where, tr)
                one = eng.decide(s3, mk('icmp', 'eq', R, ci(32, 1), 32))
                edge_case = zero if up else one
                if edge_case is None:
                    outs = [v for _, v in eng.split(s3, mk('icmp', 'eq', R, ci(32, 1), 32))]
                else:
                    outs = [edge_case]
                for first in outs:
                    if first:
                        for k in range(nkids):
                            a = aspval(ptr(P, lay['e'] + 24 * k))
                            cnt = sum(1 for e in recs if e[2] is a)
                            child = mk('load', ptr(P, lay['e'] + 24 * k), None)
                            nul_k = eng.decide(s3, pcmp(child, NULL))
                            ok = cnt == 1 or (cnt == 0 and nul_k is True)
                            ctx.ob('%s: every child is %s when the node becomes %s (child %d)' % (tag, meth, 'referenced' if up else 'unreferenced', k), ok,
                                   'child %d is visited %d times' % (k, cnt), where, tr)
                        ctx.ob('%s: only children are visited' % tag, all(e[2] in [aspval(ptr(P, lay['e'] + 24 * k)) for k in range(nkids)] and e[1] is t for e in recs), 'visited: %s' % recs, where, tr)
                        ctx.ob('%s: active node count' % tag, acts == [('add', aspval(ptr(t, off_act)), d)], 'the number of active nodes changes by %s' % acts, where, tr)
                        ctx.ob('%s: active node count of the variable' % tag, len(perv) == 1 and perv[0][0] == 'add' and perv[0][2] == d, 'the per-variable number of active nodes changes by %s' % perv, where, tr)
                    else:
                        ctx.ob('%s: children are not visited while the node stays referenced' % tag, not recs and not acts and not perv, 'effects: %s' % (recs + acts + perv), where, tr)
                ctx.ob('%s: nothing else changes' % tag, not other, 'other effects: %s' % other, where, tr)
    ctx.require(tag + ' counting paths', n, 2)


def is_perv(addr, t, vecoff, P, voff):
    b = pbase(addr)
    if poff(addr) != 0 or b.k != 'idx' or b.a[1] != 8:
        return False
    base = b.a[0]
    if not (base.k == 'load' and as_ptr(base.a[0]) is ptr(t, vecoff)):
        return False
    return any(x.k == 'load' and as_ptr(x.a[0]) is ptr(P, voff) for x in leaves(b.a[2]))


def terminal(m, s):
    for n in m.statics:
        d = m.dname(n)
        if d == 'dd::%sNode::terminal' % s or d == 'dd::%sNode::terminalNode' % s:
            return mk('glob', n)
    raise AnalysisError('terminal node of %sNode not found' % s)


def numbers(ctx, m, di, up):
    meth = 'incRef' if up else 'decRef'
    tag = 'number ' + meth
    eng, cl = run_fn(m, 't_' + meth, RefClient(), ctx)
    statics = [static_number(m, n) for n in STATIC_NUMBERS]
    x = mk('arg', 0)
    A = tag_ptr(x, '0kk')
    off = di.layout('Entry')['refCount']
    fn = eng.fn
    where = 'ComplexTable::' + meth
    wid = 32
    n = 0
    for eff, facts, kind, tr in [(r[1], r[2], 'return', r[5]) for r in cl.rets] + [(r[2], r[3], r[0], r[5]) for r in cl.ends]:
        st = mkstate(facts)
        eff = [e for e in eff if e[0] in ('add', 'set') and (x in leaves(pbase(e[1])) or pbase(e[1]) in statics)]
        for s2, vs in completions(eng, st, [pcmp(A, NULL)] + [pcmp(A, s) for s in statics]):
            if sum(vs) > 1:
                continue
            bits = eng.decide(s2, mk('icmp', 'eq', mk('bits', x, 1), ci(64, 0), 64))
            if any(vs):
                ctx.ob('%s: static numbers are never altered' % tag, not eff and kind == 'return', 'effects on a static or absent number: %s' % (eff,), where, tr)
                continue
            for base in [A] + ([x] if bits is not False else []):
                R = mk('load', ptr(base, off), None)
                mine = [e for e in eff if e[0] in ('add', 'set') and as_ptr(e[1]) is ptr(base, off)]
                if base is x and not mine and not any(key[0] == 'r' and R in leaves(key[1]) for key in facts):
                    continue
                if base is A and not mine and any(key[0] == 'r' and mk('load', ptr(x, off), None) in leaves(key[1]) for key in facts):
                    continue
                for s3, (sat, zero) in completions(eng, s2, [mk('icmp', 'eq', R, ci(wid, -1), wid), mk('icmp', 'eq', R, ci(wid, 0), wid)]):
                    if sat:
                        ctx.ob('%s: a saturated count never changes' % tag, not eff and kind == 'return', 'effects: %s' % (eff,), where, tr)
                    elif not up and zero:
                        ctx.ob('%s: releasing an unreferenced number is an error' % tag, kind == 'throw' and not eff, 'releasing a number with count 0 does not throw', where, tr)
                    else:
                        n += 1
                        ctx.ob('%s: count moves by exactly one' % tag, list(eff) == [('add', aspval(ptr(base, off)), 1 if up else -1)] and kind == 'return',
                               'effects: %s (%s)' % (eff, kind), where, tr)
    ctx.require(tag + ' counting paths', n, 1)


def complexes(ctx, m, up):
    meth = 'incRef' if up else 'decRef'
    eng, cl = run_fn(m, 'n_' + meth, RefClient(), ctx)
    statics = [static_number(m, n) for n in STATIC_NUMBERS]
    c = mk('arg', 0)
    W = [('real', mk('load', ptr(c, 0), None)), ('imaginary', mk('load', ptr(c, 8), None))]
    ctx.require('complex %s paths' % meth, len(cl.rets), 1)
    for r in cl.rets:
        number_part(ctx, eng, mkstate(r[2]), r[1], statics, W, 'n' + meth, 'complex number ' + meth, 'ComplexNumbers::' + meth, r[5])


class DelegClient(RefClient):
    pass


def package_level(ctx, m, di):
    members = {n: (o, di.tname(t)) for n, o, t in di.members(di.record('Package<'))}
    for s in 'vmd':
        off = [o for n, (o, t) in members.items() if t.startswith('UniqueTable<dd::%sNode' % s)][0]
        for meth in ('incRef', 'decRef'):
            eng, cl = run_fn(m, 'e_%s_%s' % (meth, s), DelegClient(), ctx)
            for r in cl.rets:
                calls = [e for e in r[1] if e[0] == 'call' and e[1].endswith('::' + meth)]
                ok = len(calls) == 1 and len(calls) == len([e for e in r[1]]) and as_ptr(calls[0][2][0]) is ptr(mk('arg', 0), off) and as_ptr(calls[0][2][1]) is ptr(mk('arg', 1), 0)
                ctx.ob('package %s of %sNode edges' % (meth, s), ok, 'the package does not count the edge once in the table of its node kind: %s' % (r[1],), 'Package::' + meth, r[5])
            ctx.require('package %s %s' % (meth, s), len(cl.rets), 1)


def check(ctx):
    ctx.rule('On every path of counting up (down) an edge: both weight components are counted once unless static; null/terminal nodes are untouched; '
             'saturated counts never move; otherwise the node\'s count moves by exactly one; the children are visited, once each, exactly when the node becomes '
             'referenced (unreferenced), together with the active-node counts; counting down from 0 throws before any node changes.')
    di = ctx.di()
    roots = ['u_%s_%s' % (a, s) for a in ('incRef', 'decRef', 'getActiveNodeCount', 'getActiveNodeCountVar') for s in 'vmd']
    roots += ['n_incRef', 'n_decRef']
    m = ctx.module(roots, lambda s, d: s in ('dd::ComplexTable::incRef', 'dd::ComplexTable::decRef'))
    for s in 'vmd':
        for up in (True, False):
            node_counts(ctx, m, di, s, up)
    for up in (True, False):
        complexes(ctx, m, up)
    m2 = ctx.module(['t_incRef', 't_decRef'])
    for up in (True, False):
        numbers(ctx, m2, di, up)
    m3 = ctx.module(['e_%s_%s' % (a, s) for a in ('incRef', 'decRef') for s in 'vmd'], lambda s, d: s.startswith('dd::UniqueTable::'))
    package_level(ctx, m3, di)
