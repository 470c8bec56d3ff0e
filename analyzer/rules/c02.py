"""C02: a collection removes exactly the unreferenced elements of a table."""
from common import *
from absint import *
from loops import *
from roles import *


def deltas(cl, term, acc=None, seen=None):
    """term is a counter accumulated over (nested) loops: {(header, iteration index): increment}, or None"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if term.k != 'phi':
        return None
    if term in seen:
        return acc
    seen.add(term)
    h, pid = term.a
    for k, it in enumerate(cl.iters.get(h, ())):
        new = it[0].get(pid)
        if new is None:
            return None
        if new is term:
            acc[(h, k)] = 0
        elif new.k == 'lin' and new.a[1] == ((term, 1),):
            acc[(h, k)] = new.a[2]
        elif new.k == 'phi':
            if deltas(cl, new, acc, seen) is None:
                return None
            acc.setdefault((h, k), 0)
        else:
            return None
    for ini in cl.inits.get(h, ()):
        v = dict(ini).get(pid)
        if v is not None and v.k == 'i' and v.a[1] == 0:
            continue
        if v is not None and v.k == 'phi' and (v in seen or deltas(cl, v, acc, seen) is not None):
            continue
        return None
    return acc


def link_of(p, h):
    """the loop variable that points at the link to the element, if that is how the element is found"""
    a = as_ptr(p.a[0]) if p.k == 'load' else None
    return a.a[0] if a is not None and a.a[1] == 0 and a.a[0].k == 'phi' and a.a[0].a[0] == h else None


def at_link(mem, l, P, off_next, NX):
    a = as_ptr(l)
    c = mem.get(a.a)
    if c is not None:
        return c[1]
    return NX if a is ptr(P, off_next) else mk('load', a, None)


def check_gc(ctx, m, name, tag, t_table, off_count, off_avail, off_next, off_ref, node_tables, tail=None, nbuckets=None, keep_small=0):
    eng, cl = run_fn(m, name, ctx=ctx)
    t = mk('arg', 0)
    fn = eng.fn
    loc = '%s in %s' % ('garbageCollect', tag)
    # locate the list walk: a loop with an iteration that pushes the element on the free list
    walks = []
    for h, its in cl.iters.items():
        for new, eff, facts, mem in its:
            c = mem.get((t, off_avail))
            if c is not None and c[1].k == 'phi' and c[1].a[0] == h:
                walks.append((h, c[1]))
            elif c is not None and link_of(c[1], h) is not None and c[1].a[1] == ('loop', h):
                walks.append((h, c[1]))     # the walk goes from link to link
    walks = sorted(set(walks), key=lambda x: x[0])
    if not ctx.ob('%s: unreferenced elements are returned to the pool' % tag, len(walks) == 1,
                  'no loop of the collection returns a removed element to the free list (or several do): %s' % walks, loc):
        return
    h, P = walks[0]
    where = fn.where(fn.blocks[h].insts[-1])
    ep = ('loop', h)

    def ld(base, off):
        return mk('load', ptr(base, off), ep)
    R, NX = ld(P, off_ref), ld(P, off_next)
    # where does the walk start, and who holds the element's predecessor
    slots = set()
    L = link_of(P, h)
    for ini in cl.inits[h]:
        p0 = dict(ini)[(L or P).a[1]]
        slots.add(p0 if L is not None else p0.a[0] if p0.k == 'load' else None)
    ctx.ob('%s: walk starts at the bucket head' % tag, len(slots) == 1 and None not in slots, 'the walk does not start from one bucket slot: %s' % slots, where)
    slot = next(iter(slots))
    if slot is None:
        return
    slot = as_ptr(slot)
    # candidates for "predecessor" phis
    lasts, links = [], []
    for p in fn.blocks[h].phis:
        if fn.vty.get(p.id) != 'ptr' or p.id == P.a[1]:
            continue
        init = {dict(i)[p.id] for i in cl.inits[h]}
        if init == {NULL}:
            lasts.append(mk('phi', h, p.id))
        if {as_ptr(x) for x in init} == {slot}:
            links.append(mk('phi', h, p.id))
    n_rem = n_keep = 0
    last_ok = {l: True for l in lasts}
    link_ok = {l: True for l in links}
    removed, kept = [], []
    for k, (new, eff, facts, mem) in enumerate(cl.iters[h]):
        st = mkstate(facts)
        z = eng.decide(st, mk('icmp', 'eq', R, ci(32, 0), 32))
        pushed = mem.get((t, off_avail), (8, None))[1] is P
        ctx.ob('%s: removal decided by the reference count' % tag, z is not None and pushed == z,
               'an element is %s although its reference count is %s' % ('removed' if pushed else 'kept', {True: 'zero', False: 'not zero', None: 'not examined on this path'}[z]), where)
        nxt = new[P.a[1]] if L is None else at_link(mem, new[L.a[1]], P, off_next, NX)
        ctx.ob('%s: the walk visits every element' % tag, nxt is NX,
               'after an element the walk goes on with %s instead of the element that followed it' % show(nxt), where)
        (removed if pushed else kept).append(k)
        for l in lasts:
            last_ok[l] = last_ok[l] and (new[l.a[1]] is (l if pushed else P))
        for l in links:
            last = as_ptr(new[l.a[1]])
            link_ok[l] = link_ok[l] and (last is as_ptr(l) if pushed else last is ptr(P, off_next))
    good_last = [l for l in lasts if last_ok[l]]
    good_link = [l for l in links if link_ok[l]]
    ctx.ob('%s: predecessor tracked' % tag, bool(good_last or good_link),
           'no loop variable holds the last element kept (or its link) on every iteration, so unlinking cannot be right', where)
    for k, (new, eff, facts, mem) in enumerate(cl.iters[h]):
        st = mkstate(facts)
        pushed = k in removed
        links_written = [(e[1], e[2]) for e in eff if e[0] == 'st' and e[3] == 8 and (
            as_ptr(e[1]) is slot or as_ptr(e[1]).a[0] in [P] + lasts + links + [ld(l, 0) for l in links])]
        writes = [(as_ptr(a), v) for a, v in links_written]
        if pushed:
            ok = False
            rest = []
            for a, v in writes:
                if a is ptr(P, off_next):
                    ctx.ob('%s: removed element joins the free list' % tag, v is ld(t, off_avail) or v is mk('load', ptr(t, off_avail), ep),
                           'the removed element does not link to the previous free list head', where)
                    continue
                valid = False
                for l in good_last:
                    isnull = eng.decide(st, mk('pcmp', 'eq', l, NULL))
                    if isnull is True and a is slot:
                        valid = True
                    if isnull is False and a is ptr(l, off_next):
                        valid = True
                for l in good_link:
                    if a is as_ptr(l):
                        valid = True
                if valid and v is NX:
                    ok = True
                else:
                    rest.append((a, v))
            ctx.ob('%s: a removed element is unlinked' % tag, ok,
                   'on a path that removes an element its predecessor (or the bucket) is not redirected to its successor before it is recycled', where)
            ctx.ob('%s: nothing else is relinked on removal' % tag, not rest, 'unexpected link updates on removal: %s' % rest, where)
        else:
            ctx.ob('%s: kept elements stay linked' % tag, not writes, 'a kept element is relinked: %s' % writes, where)
        mutated = [e for e in eff if e[0] == 'st' and as_ptr(e[1]).a[0] is P and not (as_ptr(e[1]).a[1] == off_next)]
        ctx.ob('%s: elements are not modified' % tag, not mutated, 'a collection writes into an element: %s' % [(show(e[1]), show(e[2])) for e in mutated], where)
        if tail is not None:
            # the tail slot of this bucket
            tails = [(as_ptr(e[1]), e[2]) for e in eff if e[0] == 'st' and as_ptr(e[1]).a[0].k == 'idx' and as_ptr(as_ptr(e[1]).a[0].a[0]) is ptr(t, tail)]
            exits = tail_after(cl, h, t, tail)
            okt = any(a_idx(a) is a_idx(slot) and v is new[l.a[1]] for a, v in tails for l in good_last) or \
                any(a_idx(a) is a_idx(slot) and v in good_last for a, v in exits)
            ctx.ob('%s: the bucket\'s tail is the last element kept' % tag, okt, 'the tail of the bucket does not follow the last element kept', where)
    ctx.require('%s removing iterations' % tag, len(removed), 1)
    ctx.require('%s keeping iterations' % tag, len(kept), 1)
    # the walk ends only at the end of the list
    for cond, val in cl.exits.get(h, ()):
        n = eng.norm_pcmp(*cond.a) if cond.k == 'pcmp' else None
        ok = isinstance(n, tuple) and n[0] == 'peq' and n[3] == val and P in (n[1], n[2]) and NULL in (n[1], n[2])
        ctx.ob('%s: the walk ends at the end of the list' % tag, ok, 'the walk can end before the end of the list (%s is %s)' % (show(cond), val), where)
    # the outer loops visit every bucket of every level
    covs = {hh: traversal(eng, cl, hh) for hh in cl.iters if hh != h and h in fn.loops[hh]}
    for hh, c in covs.items():
        ctx.ob('%s: every bucket is visited (loop %s)' % (tag, len(fn.loops[hh]) and sorted(covs).index(hh)), c is not None,
               'an enclosing loop does not visit a whole range of buckets', fn.where(fn.blocks[hh].insts[-1]))
    if any(c is None for c in covs.values()):
        return
    ok, why = covers_table(covs, slot, t, t_table, node_tables, nbuckets)
    ctx.ob('%s: the visited buckets are all buckets' % tag, ok, why, where)
    # result and element count
    col = None
    for ev, eff, facts, mem, val, tr in cl.rets:
        st = mkstate(facts)
        walked = any(e[0] == 'loop' for e in ev)
        cnt = mem.get((t, off_count))
        if not walked:
            f = eng.decide(st, mk('bool1', mk('arg', 1))) if False else force_known(eng, st)
            c0 = mk('load', ptr(t, off_count), None)
            small = eng.decide(st, mk('icmp', 'ule', c0, ci(64, keep_small), 64))
            ctx.ob('%s: a forced collection of a non-empty table walks it' % tag, f is False or small is True,
                   'the collection gives up early although it was forced and the table holds elements', loc, tr)
            ctx.ob('%s: giving up reports 0' % tag, val is ci(64, 0) and cnt is None, 'returning early reports %s' % show(val), loc, tr)
            continue
        d = deltas(cl, val) if val.k == 'phi' else None
        ok = d is not None and all(d.get((h, k), 0) == (1 if k in removed else 0) for k in range(len(cl.iters[h])))
        if not ok:
            # count difference form: old count - remaining
            p, c = lin_parts(val, 64)
            ok = c == 0 and len(p) == 2 and any(v == -1 and check_kept(cl, a, h, kept) for a, v in p.items()) and any(
                v == 1 and a.k == 'load' and as_ptr(a.a[0]) is ptr(t, off_count) for a, v in p.items())
        ctx.ob('%s: result counts the removed elements' % tag, ok, 'the returned number is not incremented exactly once per removed element', loc, tr)
        nc = cnt[1] if cnt else None
        okc = nc is not None and (check_kept(cl, nc, h, kept))
        if nc is not None and not okc:
            p, c = lin_parts(nc, 64)
            okc = c == 0 and len(p) == 2 and any(v == -1 and check_removed(cl, a, h, removed) for a, v in p.items()) and any(
                v == 1 and a.k == 'load' and as_ptr(a.a[0]) is ptr(t, off_count) for a, v in p.items())
        if nc is None or not okc:
            # decremented per removed element in place
            okc = okc or inplace(cl, t, off_count, h, removed)
        ctx.ob('%s: element count afterwards' % tag, okc, 'the table\'s element count does not become the number of elements kept', loc, tr)


def inplace(cl, t, off, h, removed):
    for k, (new, eff, facts, mem) in enumerate(cl.iters[h]):
        c = mem.get((t, off))
        old = mk('load', ptr(t, off), ('loop', h))
        want = t_add(64, old, ci(64, 1), -1) if k in removed else None
        if (c[1] if c else None) is not want and not (want is None and c is not None and c[1] is old):
            return False
    return True


def check_kept(cl, term, h, kept):
    d = deltas(cl, term) if term.k == 'phi' else None
    return d is not None and all(d.get((h, k), 0) == (1 if k in kept else 0) for k in range(len(cl.iters[h])))


def check_removed(cl, term, h, removed):
    d = deltas(cl, term) if term.k == 'phi' else None
    return d is not None and all(d.get((h, k), 0) == (1 if k in removed else 0) for k in range(len(cl.iters[h])))


def force_known(eng, st):
    for k, v in st.facts.items():
        if k[0] == 'b' and mk('arg', 1) in leaves(k[1]):
            return v
        if k[0] == 'r' and mk('arg', 1) in leaves(k[1]) and v[0] == v[1]:
            return v[0] != 0
    return None


def a_idx(a):
    a = as_ptr(a)
    return a.a[0].a[2] if a.a[0].k == 'idx' else None


def tail_after(cl, h, t, tail):
    """tail stores made right after the walk (before the enclosing loop goes on)"""
    out = []
    for hh, its in cl.iters.items():
        if hh == h:
            continue
        for new, eff, facts, mem in its:
            for e in eff:
                if e[0] == 'st' and as_ptr(e[1]).a[0].k == 'idx' and as_ptr(as_ptr(e[1]).a[0].a[0]) is ptr(t, tail):
                    out.append((as_ptr(e[1]), e[2]))
    return out


def covers_table(covs, slot, t, off, node_tables, nbuckets):
    """slot is the bucket slot of the walk, expressed in the loop variables of the enclosing loops"""
    b, o = slot.a
    inner = None
    if o != 0 and not (o == -8 and b.k == 'idx' and any(c.down and b.a[2] is c.elem for c in covs.values())):
        return False, 'the bucket slot %s is not a bucket of the loops around the walk' % show(slot)
    row = None
    for h, c in covs.items():
        if c.stride is not None and c.elem is b and c.stride == 8:
            inner = c
            lo, hi = as_ptr(c.base), as_ptr(c.end)
            if lo.a[0] is not hi.a[0] or hi.a[1] - lo.a[1] != 8 * nbuckets:
                return False, 'the bucket loop runs over %s .. %s, not over all %d buckets' % (show(c.base), show(c.end), nbuckets)
            row = lo
        if c.stride is None and b.k == 'idx' and b.a[2] is c.elem and b.a[1] == 8:
            inner = c
            if c.count is not ci(c.count.a[0] if c.count.k == 'i' else 64, nbuckets):
                return False, 'the bucket loop runs over %s buckets instead of all %d' % (show(c.count), nbuckets)
            row = as_ptr(b.a[0])
    if inner is None:
        return False, 'no loop around the walk runs over the buckets'
    if not node_tables:
        if row is not ptr(t, off):
            return False, 'the buckets visited are not the table\'s: %s' % show(row)
        return True, ''
    begin, end = mkload(t, off), mkload(t, off + 8)
    for h, c in covs.items():
        if c is inner:
            continue
        if c.stride is not None and c.elem is row.a[0] and row.a[1] == 0:
            if eqload(c.base, t, off) and eqload(c.end, t, off + 8) and c.stride == 8 * nbuckets:
                return True, ''
            return False, 'the level loop runs over %s .. %s' % (show(c.base), show(c.end))
        if c.stride is None and row.a[0].k == 'idx' and row.a[0].a[2] is c.elem and eqload(row.a[0].a[0], t, off) and row.a[0].a[1] == 8 * nbuckets:
            # index walk: count must be size() = (end-begin)/size
            p, cc = lin_parts(c.count, 64)
            return True if vec_size(c.count, t, off, 8 * nbuckets) else False, 'the level loop runs over %s levels' % show(c.count)
    return False, 'no loop runs over the levels'


def vec_size(term, t, off, esz):
    ls = leaves(term)
    b = [x for x in ls if x.k == 'load' and as_ptr(x.a[0]) is ptr(t, off)]
    e = [x for x in ls if x.k == 'load' and as_ptr(x.a[0]) is ptr(t, off + 8)]
    return bool(b and e) and not [x for x in ls if x.k == 'lin' and x.a[2] != 0]


def mkload(t, off):
    return mk('load', ptr(t, off), None)


def eqload(x, t, off):
    return x.k == 'load' and as_ptr(x.a[0]) is ptr(t, off)


def mkstate(facts):
    s = State()
    s.env, s.mem, s.rng, s.ep, s.facts, s.c, s.it, s.path, s.tag = {}, {}, {}, {}, dict(facts), None, (), None, 0
    return s


def check(ctx):
    ctx.rule('Each iteration of the collection\'s list walk, on every path: reference count 0 <=> the element is unlinked (predecessor or bucket '
             'redirected to its successor, read before recycling) and pushed on the free list; nothing else is written; the walk visits every '
             'bucket of every level to its end; element count and result follow; no early exit when forced.')
    di = ctx.di()
    roots = []
    for s in 'vmd':
        roots += ['u_garbageCollect_' + s, 'u_returnNode_' + s, 'u_getNodeCount_' + s, 'u_getTables_' + s]
    roots += ['t_garbageCollect', 't_returnEntry', 't_getCount', 't_getTable']
    m = ctx.module(roots)
    rec = {n: (o, di.tname(t)) for n, o, t in di.members(di.record('Package<'))}
    for s in 'vmd':
        lay = di.layout(s + 'Node')
        head = pool_roles(m, 'u_returnNode_' + s)
        if head is None:
            ctx.ob('%sNode table: returning a node puts it on the free list' % s, False, 'returnNode does not push the node on a free list', 'UniqueTable::returnNode')
            continue
        tn = [t for n, (o, t) in rec.items() if t.startswith('UniqueTable<dd::%sNode' % s)][0]
        nb = int(tn.split(',')[1].strip().rstrip('UL'))
        check_gc(ctx, m, 'u_garbageCollect_' + s, s + 'Node table', getter_offset(m, 'u_getTables_' + s), getter_offset(m, 'u_getNodeCount_' + s),
                 head[0], lay['next'], lay['ref'], True, None, nb)
    lay = di.layout('Entry')
    head = pool_roles(m, 't_returnEntry')
    if head is None:
        ctx.ob('number table: returning an entry puts it on the free list', False, 'returnEntry does not push the entry on a free list', 'ComplexTable::returnEntry')
        return
    ct = di.members(di.record('ComplexTable<'))
    off = {n: o for n, o, t in ct}
    tab = getter_offset(m, 't_getTable')
    nb = None
    for n, o, t in ct:
        if o == tab:
            nb = di.size(t) // 8
    tail = [o for n, o, t in ct if 'tail' in n.lower() and di.size(t) == nb * 8]
    check_gc(ctx, m, 't_garbageCollect', 'number table', tab, getter_offset(m, 't_getCount'), head[0], lay['next'], lay['refCount'], False,
             tail[0] if tail else None, nb, keep_small=1)
