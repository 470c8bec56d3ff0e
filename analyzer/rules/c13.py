"""C13: a unique-table lookup returns an equal stored node or stores the given one."""
from common import *
from absint import *
from loops import *
from roles import *
from rules.c02 import mkstate, vec_size
from rules.c06 import MemoClient, key_fact, isnull, flag_bit


def child_leaves(di, s, esz):
    """(name, offset in node, kind) of every component of a node's successors that decides equality"""
    from rules.c06 import leafs
    lay = di.layout(s + 'Node')
    le = leafs(di, s + 'Edge')
    n = {'v': 2, 'm': 4, 'd': 4}[s]
    out = []
    for j in range(n):
        for (o, sz, kind), nm in zip(le, ('node', 'real weight', 'imaginary weight')):
            out.append(('successor %d %s' % (j, nm), lay['e'] + j * esz + o, kind))
    return out


def differs(eng, st, kind, a, b):
    if kind == 'node':
        return eng.decide(st, mk('pcmp', 'eq', a, b)) is False
    x, y = (a, b) if a.n <= b.n else (b, a)
    return st.facts.get(('b', mk('approx', x, y))) is False or eng.decide(st, mk('pcmp', 'eq', a, b)) is False


def flags_cmp(eng, st, a, b):
    return eng.decide(st, mk('icmp', 'eq', a, b, 8))


def check_table(ctx, m, di, s):
    tag = {'v': 'vector', 'm': 'matrix', 'd': 'density'}[s] + ' nodes'
    lay = di.layout(s + 'Node')
    eng, cl = run_fn(m, 'u_lookup_' + s, MemoClient(), ctx)
    fn = eng.fn
    r, t, e, keep = (mk('arg', k) for k in range(4))
    ep_ = mk('load', ptr(e, 0), None)
    from rules.c06 import leafs
    el = leafs(di, s + 'Edge')
    esz = max(o + z for o, z, _ in el)
    comps = child_leaves(di, s, esz)
    tab = getter_offset(m, 'u_getTables_' + s)
    cnt = getter_offset(m, 'u_getNodeCount_' + s)
    pool = pool_roles(m, 'u_returnNode_' + s)
    if not ctx.ob('%s: returning a node puts it on the free list' % tag, pool is not None, 'returnNode does not push the node', tag):
        return
    head = pool[0]
    loc = 'lookup of ' + tag
    # the walk over the bucket
    walks = []
    for h, inits in cl.inits.items():
        for ini in inits:
            for pid, v in ini:
                if v.k == 'load' and pbase(v.a[0]).k == 'idx' and any(it[0][pid].k == 'load' and it[0][pid].a[0] is aspval(ptr(mk('phi', h, pid), lay['next'])) or
                                                                      (it[0][pid].k == 'load' and as_ptr(it[0][pid].a[0]) is ptr(mk('phi', h, pid), lay['next'])) for it in cl.iters.get(h, ())):
                    walks.append((h, pid, v))
    if not ctx.ob('%s: the bucket is searched' % tag, len({w[:2] for w in walks}) == 1, 'no loop follows the chain of a bucket (or several do)', loc):
        return
    h, pid, v0 = walks[0]
    P = mk('phi', h, pid)
    slot = as_ptr(v0.a[0])
    # the bucket: level of the node, hash of its successors
    okslot = False
    row = slot.a[0].a[0] if slot.a[0].k == 'idx' else None
    if row is not None and slot.a[1] == 0:
        row = pbase(row)
        lv = mk('load', ptr(ep_, lay['v']), None)
        if row.k == 'idx' and row.a[0].k == 'load' and as_ptr(row.a[0].a[0]) is ptr(t, tab):
            okslot = slot.a[0].a[2].k == 'hash' and ep_ in leaves(slot.a[0].a[2]) and \
                (lv is row.a[2] or row.a[2].k in ('sext', 'zext') and row.a[2].a[2] is lv)
    ctx.ob('%s: the bucket is that of the node\'s level and hash' % tag, okslot, 'searches the bucket %s' % show(slot), loc)

    def eq(st, S):
        """every component known equal"""
        bad = []
        if eng.decide(st, mk('pcmp', 'eq', S, ep_)) is True:
            return bad
        for nm, off, kind in comps:
            a, b = eng.load(st, ptr(S, off), 8, 'ptr'), eng.load(st, ptr(ep_, off), 8, 'ptr')
            if not (a is b or key_fact(eng, st, kind, a, b)):
                bad.append(nm)
        if s == 'd':
            a, b = eng.load(st, ptr(S, lay['flags']), 1), eng.load(st, ptr(ep_, lay['flags']), 1)
            if flags_cmp(eng, st, a, b) is not True:
                bad.append('flags')
        return bad

    def neq(st, S):
        for nm, off, kind in comps:
            if differs(eng, st, kind, eng.load(st, ptr(S, off), 8, 'ptr'), eng.load(st, ptr(ep_, off), 8, 'ptr')):
                return True
        if s == 'd':
            a, b = eng.load(st, ptr(S, lay['flags']), 1), eng.load(st, ptr(ep_, lay['flags']), 1)
            if flags_cmp(eng, st, a, b) is False:
                return True
        return False

    def is_term(st, x):
        if pbase(x).k == 'glob' and m.dname(pbase(x).a[0]).endswith('terminalNode'):
            return True
        return any(k[0] == 'peq' and v is True and x in k[1:] and any(pbase(y).k == 'glob' for y in k[1:]) for k, v in st.facts.items())
    n_it = 0
    for (new, eff, facts, mem), st in zip(cl.iters[h], cl.iter_states[h]):
        n_it += 1
        nx = new[pid]
        ctx.ob('%s: the walk follows the chain' % tag, nx.k == 'load' and as_ptr(nx.a[0]) is ptr(P, lay['next']), 'the walk goes from a node to %s' % show(nx), loc)
        ctx.ob('%s: a stored node is passed over only if it differs' % tag, neq(st, P),
               'the walk passes a stored node on a path where nothing of it is known to differ from the requested one (a duplicate would be stored)', loc, eng.trace(st))
        ctx.ob('%s: searching changes no node' % tag, not [x for x in eff if x[0] == 'st' and (pbase(x[1]) is P or pbase(x[1]).k == 'idx' or pbase(x[1]) is ep_)], 'the walk writes: %s' % (eff,), loc)
    ctx.require(tag + ' walk iterations', n_it, 2)
    hits = inserts = terms = 0
    for st, tr in cl.finals:
        if is_term(st, P):
            continue      # never stored (a lookup of the terminal stores nothing, below)
        res = [eng.load(st, ptr(r, o), 8, 'ptr') for o, z, k in el]
        mine = [mk('load', ptr(e, o), None) for o, z, k in el]
        walked = any(x[0] == 'loop' and x[1] == h for x in st.c[0])
        top = res[0]
        cN = [v for (b, o), (z, v) in st.mem.items() if b is t and o == cnt and z == 8]
        inc = 0
        if cN:
            p, c = lin_parts(cN[0], 64)
            inc = c if len(p) == 1 and as_ptr(next(iter(p)).a[0]) is ptr(t, cnt) else None
        fl = [v for (b, o), (z, v) in st.mem.items() if b is t and o == head]
        wr = {k: v for k, v in st.mem.items() if k[0] is not t and k[0] is not r and k[0].k != 'alloca'}
        ctx.ob('%s: the answer keeps the weight it was asked with' % tag, res[1] is mine[1] and res[2] is mine[2], 'the returned weight is (%s, %s)' % (show(res[1]), show(res[2])), loc, tr)
        if not walked:
            terms += 1
            ctx.ob('%s: only terminal edges bypass the table' % tag, is_term(st, ep_), 'a node that is not the terminal is returned without a search', loc, tr)
            ctx.ob('%s: terminal edges are returned as they are' % tag, top is mine[0] and inc == 0 and not wr and not fl, 'a terminal edge is changed or stored', loc, tr)
            continue
        isnull_ = eng.decide(st, mk('pcmp', 'eq', P, NULL))
        if top is P:
            hits += 1
            bad = eq(st, P)
            ctx.ob('%s: an answer equals the requested node' % tag, not bad and isnull_ is not True,
                   'a stored node is returned although it is not known to agree in: %s' % ', '.join(bad), loc, tr)
            same = eng.decide(st, mk('pcmp', 'eq', ep_, P))
            kp = arg_bool(eng, st, keep)
            pushed = bool(fl)
            if kp is not None or same is not None or pushed:
                ctx.ob('%s: the superseded node is recycled exactly when it is a different node and not kept' % tag,
                       (pushed and same is False and kp is False) or (not pushed and (same is True or kp is True)),
                       'the requested node is %s (identical: %s, keep: %s)' % ('recycled' if pushed else 'not recycled', same, kp), loc, tr)
            else:
                ctx.ob('%s: the superseded node is recycled exactly when it is a different node and not kept' % tag, False, 'not decided on this path', loc, tr)
            if pushed:
                ctx.ob('%s: recycling pushes the node on the free list' % tag, fl[-1] is ep_ and eng.load(st, ptr(ep_, lay['next']), 8) is mk('load', ptr(t, head), ('loop', h)) or
                       eng.load(st, ptr(ep_, lay['next']), 8).k == 'load' and as_ptr(eng.load(st, ptr(ep_, lay['next']), 8).a[0]) is ptr(t, head), 'the free list is not extended by the node', loc, tr)
            ctx.ob('%s: a hit stores nothing' % tag, inc == 0 and not [k for k in wr if k[0] is not ep_], 'a found node is stored again or the table is changed: %s' % [show(ptr(*k)) for k in wr], loc, tr)
            ctx.ob('%s: lookups do not change node contents' % tag, not [k for k in wr if k[0] is ep_ and k[1] != lay['next']], 'a lookup writes into the node: %s' % [k[1] for k in wr], loc, tr)
        else:
            inserts += 1
            ctx.ob('%s: without an equal node the requested one is returned' % tag, top is mine[0], 'returns %s' % show(top), loc, tr)
            ctx.ob('%s: a node is stored only after the whole bucket was searched' % tag, isnull_ is True or is_term(st, P), 'a node is stored although the search stopped early', loc, tr)
            nxt = eng.load(st, ptr(ep_, lay['next']), 8)
            sl = eng.load(st, slot, 8)
            ctx.ob('%s: a stored node is linked in front of its bucket' % tag, nxt.k == 'load' and as_ptr(nxt.a[0]) is slot and sl is ep_,
                   'the node is not linked into the bucket that was searched (link %s, bucket head %s)' % (show(nxt), show(sl)), loc, tr)
            ctx.ob('%s: storing raises the element count by one' % tag, inc == 1, 'the element count changes by %s' % inc, loc, tr)
            other = [k for k in wr if not (k[0] is ep_ and k[1] == lay['next']) and not (k[0] is slot.a[0] and k[1] == slot.a[1])]
            ctx.ob('%s: lookups do not change node contents' % tag, not other and not fl, 'storing a node writes elsewhere too: %s' % [show(ptr(*k)) for k in other], loc, tr)
    ctx.require(tag + ' hits', hits, 2)
    ctx.require(tag + ' stores', inserts, 1)
    ctx.require(tag + ' terminal', terms, 1)


def arg_bool(eng, st, a):
    for k, v in st.facts.items():
        if k[0] == 'b' and (k[1] is a or a in leaves(k[1])):
            return v
        if k[0] == 'r' and (k[1] is a or a in leaves(k[1])) and v[0] == v[1]:
            return v[0] != 0
        if k[0] == 'r' and (k[1] is a or a in leaves(k[1])) and (0 in v[4] or v[2] > 0):
            return True
    return None


def check_hash(ctx, m, di, s):
    """the bucket of a node is a function of its successors only"""
    tag = {'v': 'vector', 'm': 'matrix', 'd': 'density'}[s] + ' nodes'
    lay = di.layout(s + 'Node')
    eng, cl = run_fn(m, 'u_hash_' + s, None, ctx)
    n = 0
    lo, hi = lay['e'], None
    from rules.c06 import leafs
    esz = max(o + z for o, z, _ in leafs(di, s + 'Edge'))
    hi = lo + esz * {'v': 2, 'm': 4, 'd': 4}[s]
    a = [k for k in range(len(eng.args))][-1]
    for ev, eff, facts, mem, val, tr in cl.rets:
        n += 1
        bad = []
        for x in leaves(val):
            if x.k == 'load':
                b, o = as_ptr(x.a[0]).a
                if b.k == 'arg' and not lo <= o < hi:
                    bad.append(show(x))
                if b.k == 'load' and s == 'd' and o == lay['flags'] and as_ptr(b.a[0]).a[0].k == 'arg':
                    continue    # the temporary-mark bits of a successor, zero outside density multiplication
                if b.k == 'load' or b.k == 'glob':
                    bad.append(show(x))
            if x.k in ('call', 'phi', 'undef'):
                bad.append(show(x))
        ctx.ob('%s: the hash depends on the successors only' % tag, not bad, 'the hash also depends on %s' % bad[:3], 'UniqueTable::hash', tr)
    ctx.require(tag + ' hash paths', n, 1)


def check(ctx):
    ctx.rule('Lookup: the walk over the bucket of the node\'s level and hash passes a stored node only on paths where some successor component (node, weight, density '
             'flags) is known to differ, answers it only on paths where all are known equal, and otherwise links the given node in front of that bucket and counts it; '
             'the superseded duplicate is recycled exactly when it is another node and not to be kept; terminal edges bypass the table.')
    di = ctx.di()
    cut = lambda sh, d: sh in ('dd::ComplexTable::Entry::approximatelyEquals', 'dd::UniqueTable::hash')
    roots = []
    for s in 'vmd':
        roots += ['u_lookup_' + s, 'u_getTables_' + s, 'u_getNodeCount_' + s, 'u_returnNode_' + s]
    m = ctx.module(roots, cut)
    for s in 'vmd':
        check_table(ctx, m, di, s)
    m2 = ctx.module(['u_hash_' + s for s in 'vmd'])
    for s in 'vmd':
        check_hash(ctx, m2, di, s)
