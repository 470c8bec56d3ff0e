"""C24: storage pools hand out every element to one user at a time."""
from rules.pools import *


def check_pool(ctx, tag, m, take, give, size, pair, ref, argk=0, peek=None, count=None):
    p = Pool(ctx, tag, m, take, give, size, pair, argk)
    if not ctx.ob('%s: pool recognised' % tag, p.ok, 'no free list with a link through returned elements, or no chunk position, can be found: head %s link %s position %s end %s chunks %s' % (
            p.head, p.link, p.it, p.end, p.vec), tag):
        return
    give_back(ctx, tag, p, count)
    grown = []
    n = {'free': 0, 'chunk': 0, 'grow': 0}
    for (st, val, tr), r in zip(p.cl.finals, p.cl.rets):
        n[take_path(ctx, tag, p, p.eng, p.cl, st, val, tr, r, ref, True, count, grown)] += 1
    for k, what in (('free', 'reuse of returned elements'), ('chunk', 'next element of the chunk'), ('grow', 'new chunk')):
        ctx.ob('%s: %s' % (tag, what), n[k] >= 1, 'there is no path for: ' + what, tag)
    if peek:
        q = p
        eng, cl = run_pool(ctx, m, peek)
        q.eng, q.cl = eng, cl
        for (st, val, tr), r in zip(cl.finals, cl.rets):
            take_path(ctx, tag + ' (temporary)', q, eng, cl, st, val, tr, r, ref, False, count, grown)


def give_back(ctx, tag, p, count):
    eng, cl, t, xs = p.give
    old = mk('load', ptr(t, p.head), None)
    for (st, val, tr), r in zip(cl.finals, cl.rets):
        loc = 'return to the pool of ' + tag
        ctx.ob('%s: a returned element becomes the first free one' % tag, eng.load(st, ptr(t, p.head), 8) is xs[0], 'the free list starts with %s' % show(eng.load(st, ptr(t, p.head), 8)), loc, tr)
        for a, b in zip(xs, xs[1:] + [old]):
            ctx.ob('%s: a returned element keeps the other free ones' % tag, aspval(eng.load(st, ptr(a, p.link), 8, 'ptr')) is b, 'the returned element links to %s' % show(eng.load(st, ptr(a, p.link), 8)), loc, tr)
        allowed = {(t, p.head)} | {(x, p.link) for x in xs} | ({(t, count)} if count is not None else set())
        extra = [(b, o) for (b, o), c in st.mem.items() if b.k != 'alloca' and (b, o) not in allowed and (b is not t or o in (p.it, p.end, p.vec, p.vec + 8))]
        ctx.ob('%s: returning changes nothing else' % tag, not extra, 'returning an element also writes %s' % [show(ptr(*e)) for e in extra], loc, tr)
        if count is not None:
            d = t_add(64, eng.load(st, ptr(t, count), 8), mk('load', ptr(t, count), None), -1)
            ctx.ob('%s: returning is counted' % tag, d is ci(64, -len(xs)), 'the count of elements in use changes by %s' % show(d), loc, tr)


def take_path(ctx, tag, p, eng, cl, st, val, tr, r, ref, takes, count, grown):
    t = p.t
    loc = 'taking from the pool of ' + tag
    xs = p.taken(st, val, p.pair)
    seq = sequence(cl, r[0], r[1])
    grows = [e for e in seq if e[0] == 'grow']
    head0, it0, end0 = p.fld(p.head), p.fld(p.it), p.fld(p.end)
    empty = eng.decide(st, mk('pcmp', 'eq', head0, NULL))
    # what the fields hold afterwards
    head1 = aspval(eng.load(st, ptr(t, p.head), 8, 'ptr'))
    it1, end1 = aspval(eng.load(st, ptr(t, p.it), 8, 'ptr')), aspval(eng.load(st, ptr(t, p.end), 8, 'ptr'))

    def refzero(x):
        v = eng.load(st, ptr(x, ref), 4)
        return v is ci(32, 0)
    if xs[0] is head0:
        kind = 'free'
        ctx.ob('%s: a free element is only taken if there is one' % tag, empty is False, 'the head of the free list is handed out although it may be null', loc, tr)
        last = xs[0]
        if p.pair:
            nx = mk('load', ptr(head0, p.link), None)
            ctx.ob('%s: two different free elements' % tag, xs[1] is nx, 'the second element handed out is %s, not the one following the first' % show(xs[1]), loc, tr)
            last = nx
        want = mk('load', ptr(last, p.link), None) if takes else head0
        ctx.ob('%s: %s' % (tag, 'an element handed out leaves the free list' if takes else 'a temporary stays in the free list'), head1 is want,
               'the free list starts with %s afterwards' % show(head1), loc, tr)
        ctx.ob('%s: reuse leaves the chunks alone' % tag, it1 is it0 and end1 is end0 and not grows, 'the chunk position changes', loc, tr)
        if takes and ref is not None:
            ctx.ob('%s: a reused element has reference count zero' % tag, all(refzero(x) for x in xs), 'a reused element keeps its reference count', loc, tr)
    else:
        ctx.ob('%s: returned elements are reused first' % tag, empty is True, 'takes from the chunk although a free element exists', loc, tr)
        ctx.ob('%s: the free list stays' % tag, head1 is head0 or head1 is NULL and empty is True, 'the free list starts with %s afterwards' % show(head1), loc, tr)
        full = eng.decide(st, mk('pcmp', 'eq', it0, end0))
        if not grows:
            kind = 'chunk'
            base, end = it0, end0
            ctx.ob('%s: nothing is handed out past the end of a chunk' % tag, full is False, 'an element is taken although the chunk may be exhausted', loc, tr)
        else:
            kind = 'grow'
            ctx.ob('%s: a new chunk only when the old one is exhausted' % tag, full is True, 'a new chunk is started although the old one is not exhausted', loc, tr)
            ctx.ob('%s: one new chunk' % tag, len(grows) == 1 and grows[0][1] is ptr(t, p.vec), 'path adds %d chunks' % len(grows), loc, tr)
            cid = None
            X = None
            for f in {it1, end1} | set(xs):
                b = pbase(f)
                if b.k == 'load':
                    X = b
            chunk = as_ptr(X.a[0]).a[0] if X is not None else None
            coff = poff(X.a[0]) if X is not None else None
            good = False
            if chunk is not None:
                if chunk.k == 'newchunk':
                    good, coff0 = True, 0
                elif chunk.k == 'cfin':
                    good, coff0 = True, -24
                elif chunk.k == 'idx' and as_ptr(chunk.a[0]).a[0].k == 'cdata' and poff(chunk.a[0]) == 0 and chunk.a[1] == 24:
                    k = t_add(64, chunk.a[2], ci(64, coff // 24))      # constant index parts are folded into the offset
                    pk, ck = lin_parts(k, 64)
                    at = next(iter(pk)) if len(pk) == 1 else None
                    if at is not None and at.k == 'load' and pbase(at.a[0]) is t:
                        cid = poff(at.a[0])
                        good, coff0 = ck == 1 and eng.load(st, ptr(t, cid), 8) is k, coff - coff % 24
                        if good:
                            grown.append(cid)
            if not ctx.ob('%s: the new chunk is the one handed out from' % tag, good, 'elements are taken from %s, which is not the chunk just added' % (show(chunk) if chunk is not None else show(xs[0])), loc, tr):
                return kind
            base = mk('load', ptr(chunk, coff0), X.a[1])
            end = mk('load', ptr(chunk, coff0 + 8), X.a[1])
            sz = grows[0][2]
            if sz is not None:
                p2, c2 = lin_parts(sz, 64)
                own = sz.k == 'load' and pbase(sz.a[0]) is t or (sz.k == 'i' and sz.a[1] >= 2 and sz.a[1] % 2 == 0) or (c2 % 2 == 0 and all(a.k == 'load' and pbase(a.a[0]) is t for a in p2))
                ctx.ob('%s: a new chunk is not empty' % tag, own, 'the size of the new chunk is %s' % show(sz), loc, tr)
                if sz.k == 'load' and pbase(sz.a[0]) is t:
                    after = eng.load(st, sz.a[0], 8)
                    pa, ca = lin_parts(after, 64)
                    ctx.ob('%s: chunk sizes never shrink' % tag, len(pa) == 1 and ca == 0 and next(iter(pa)) is sz and pa[sz] >= 1, 'the size of the next chunk becomes %s' % show(after), loc, tr)
        st2 = len(xs)
        for j, x in enumerate(xs):
            ctx.ob('%s: elements are taken in order from the chunk' % tag, aspval(x) is aspval(ptr(base, j * p.size)), 'hands out %s instead of element %d after the chunk position' % (show(x), j), loc, tr)
        want = aspval(ptr(base, st2 * p.size)) if takes else base
        if takes or kind == 'grow':
            ctx.ob('%s: %s' % (tag, 'the chunk position moves past what was handed out' if takes else 'a temporary stays in its chunk'), it1 is want, 'the chunk position becomes %s' % show(it1), loc, tr)
        else:
            ctx.ob('%s: a temporary stays in its chunk' % tag, it1 is it0, 'the chunk position becomes %s' % show(it1), loc, tr)
        ctx.ob('%s: the end of the chunk' % tag, end1 is end, 'the end of the chunk becomes %s' % show(end1), loc, tr)
    if count is not None:
        d = t_add(64, eng.load(st, ptr(t, count), 8), mk('load', ptr(t, count), None), -1)
        ctx.ob('%s: handing out is counted' % tag, d is ci(64, len(xs) if takes else 0) or (kind == 'grow' and True and _delta(eng, st, t, count, len(xs) if takes else 0)), 'the count of elements in use changes by %s' % show(d), loc, tr)
    return kind


def _delta(eng, st, t, count, n):
    v = eng.load(st, ptr(t, count), 8)
    p, c = lin_parts(v, 64)
    if c != n or len(p) != 1:
        return False
    a = next(iter(p))
    return p[a] == 1 and a.k == 'load' and as_ptr(a.a[0]) is ptr(t, count)


def check(ctx):
    ctx.rule('Every path that hands out an element takes the head of the free list and unlinks it (with reference count reset), or the next element of the current chunk and advances past it, '
             'or adds one chunk and takes its first element; no path hands out past the end of a chunk. Every path that takes an element back pushes it on the free list, keeping the rest.')
    di = ctx.di()
    roots = ['u_%s_%s' % (f, s) for s in 'vmd' for f in ('getNode', 'returnNode')] + ['t_getEntry', 't_returnEntry', 'k_getCached', 'k_getTemporary', 'k_return', 'k_getCount']
    m = ctx.module(roots, cut)
    for s in 'vmd':
        rec = di.record(s + 'Node')
        lay = di.layout(s + 'Node')
        check_pool(ctx, s + 'Node', m, 'u_getNode_' + s, 'u_returnNode_' + s, di.size(rec), False, lay['ref'])
    ent = di.record('Entry')
    check_pool(ctx, 'number', m, 't_getEntry', 't_returnEntry', di.size(ent), False, di.layout('Entry')['refCount'])
    check_pool(ctx, 'scratch number', m, 'k_getCached', 'k_return', di.size(ent), True, None, 1, 'k_getTemporary', getter_offset(m, 'k_getCount'))
