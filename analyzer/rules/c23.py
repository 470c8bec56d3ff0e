"""C23: clearing and resetting leave nothing behind."""
from rules.pools import *
from rules import c01


def strip_ep(p):
    return noep(p)


class Fin:
    """a finished path of a clear(): ordered effects, fields of the table afterwards"""

    def __init__(self, eng, cl, st, r, t):
        self.eng, self.cl, self.st, self.t = eng, cl, st, t
        self.ev, self.eff, self.facts, self.mem, self.val, self.tr = r
        self.seq = sequence(cl, self.ev, self.eff)

    def field(self, off, size=8):
        """value of the field at the end, or None; stores of loops to elements of buckets do not touch fields"""
        v = None
        for e in self.seq:
            if e[0] == 'st' and as_ptr(e[1]) is ptr(self.t, off):
                v = e[2]
            if e[0] == 'loop' and any(x[0] == 'st' and as_ptr(x[1]) is ptr(self.t, off) for it in self.cl.iters.get(e[1], ()) for x in it[1]):
                v = mk('load', ptr(self.t, off), ('loop', e[1]))
        return v if v is not None else mk('load', ptr(self.t, off), None)

    def zero(self, off):
        v = self.field(off)
        if v in (ci(64, 0), NULL):
            return True
        return v.k == 'load' and self.eng.decide(self.st, mk('icmp', 'eq', v, ci(64, 0), 64)) is True

    def loops(self):
        return [e[1] for e in self.seq if e[0] == 'loop']


def fills(eng, cl):
    """per loop header: (cover, {offset in the element: value written on every iteration})"""
    fn = eng.fn
    out = {}
    for h in cl.iters:
        c = traversal(eng, cl, h)
        if c is None:
            continue
        common = None
        base = None
        per = None      # what every iteration writes, by the array it writes to
        for st in cl.iter_states[h]:
            cells = {}
            mine = {}
            bs = [c.elem] if c.stride is not None else {b for b in list(st.rng) + [k[0] for k in st.mem] if b.k == 'idx' and b.a[2] is c.elem}
            for b in bs:
                if c.stride is None:
                    base = as_ptr(b.a[0])
                    c.width = b.a[1]
                for (b2, o), (sz, v) in st.mem.items():
                    if b2 is b:
                        cells[o] = v
                        mine.setdefault(b, {})[o] = v
                for (l, n, sb, so, ep) in st.rng.get(b, ()):
                    if sb is None:
                        for o in range(l, l + n, 8):
                            cells.setdefault(o, NULL if so == 0 else ci(64, so))
                            mine.setdefault(b, {}).setdefault(o, NULL if so == 0 else ci(64, so))
            per = mine if per is None else {b: {o: v for o, v in x.items() if mine.get(b, {}).get(o) is v} for b, x in per.items()}
            common = cells if common is None else {o: v for o, v in common.items() if cells.get(o) is v}
        c.from_ = as_ptr(c.base) if c.stride is not None else base
        c.arrays = [(as_ptr(b.a[0]), b.a[1], x) for b, x in (per or {}).items()] if c.stride is None else []
        out[h] = (c, common or {})
    # an outer loop whose every iteration runs an inner loop over all of its element
    for h in list(out):
        c, cells = out[h]
        for g in out:
            if g == h or g not in fn.loops[h]:
                continue
            ci_, cc = out[g]
            if c.stride is None:
                b = as_ptr(ci_.base).a[0] if ci_.stride is not None else (ci_.from_.a[0] if ci_.from_ is not None else None)
                if b is not None and b.k == 'idx' and b.a[2] is c.elem:
                    n = poff(ci_.end) - poff(ci_.base) if ci_.stride is not None and pbase(ci_.end) is b else (
                        ci_.count.a[1] * ci_.width if ci_.stride is None and ci_.count.k == 'i' else None)
                    if n == b.a[1] and (poff(ci_.base) if ci_.stride is not None else ci_.from_.a[1]) == 0:
                        c.width, c.from_ = b.a[1], as_ptr(b.a[0])
                        cells.update(cc)
                continue
            if ci_.stride is not None and pbase(ci_.base) is c.elem and pbase(ci_.end) is c.elem and poff(ci_.base) == 0 and poff(ci_.end) == c.stride:
                cells.update(cc)
            elif ci_.stride is None and ci_.from_ is not None and ci_.from_.a[0] is c.elem and ci_.from_.a[1] == 0 and ci_.count.k == 'i' and ci_.count.a[1] * ci_.width == c.stride:
                cells.update(cc)
    # loops without a cover of their own whose element is only filled by memset are handled by the range of the state
    return out


def covers_by_index(f, c, array, kind, want, nul):
    b, width, cells = array
    v = cells.get(nul)
    if v is None or not (v is NULL or v.k == 'i' and v.a[1] == 0):
        return False
    if kind == 'inline' and b is ptr(f.t, want[0]) and c.count.k == 'i' and c.count.a[1] * width == want[1]:
        return True
    if kind == 'vec' and b.a[1] == 0 and b.a[0].k == 'load' and as_ptr(noep_ptr(b.a[0].a[0])) is want:
        n = noep(c.count)
        lo, hi = mk('load', want, None), mk('load', ptr(want.a[0], want.a[1] + 8), None)
        return {lo, hi} <= leaves(n) or {mk('ptrtoint', lo), mk('ptrtoint', hi)} <= leaves(n)
    return False


def covers(f, fl, kind, want, nul, seen_st):
    """is the range `want` filled with zero at offset nul of every element?  want: ('inline', off, size) or ('vec', address of the begin pointer)"""
    for h in f.loops():
        if h not in fl:
            continue
        c, cells = fl[h]
        if c.stride is None and len(c.arrays) > 1 and c.count is not None and any(covers_by_index(f, c, a, kind, want, nul) for a in c.arrays):
            return True
        v = cells.get(nul)
        if v is None or not (v is NULL or v.k == 'i' and v.a[1] == 0):
            continue
        b = c.from_
        if b is None:
            continue
        if c.stride is not None:
            e = as_ptr(c.end)
            if kind == 'inline' and b is ptr(f.t, want[0]) and e is ptr(f.t, want[0] + want[1]):
                return True
            if kind == 'vec' and b.a[1] == 0 and e.a[1] == 0 and b.a[0].k == 'load' and e.a[0].k == 'load':
                x, y = as_ptr(noep_ptr(b.a[0].a[0])), as_ptr(noep_ptr(e.a[0].a[0]))
                if x is want and y is ptr(x.a[0], x.a[1] + 8):
                    return True
        elif c.count is not None and covers_by_index(f, c, (b, c.width, cells), kind, want, nul):
            return True
    if kind == 'inline':
        for (l, n, sb, so, ep) in f.st.rng.get(f.t, ()):
            if sb is None and so == 0 and l <= want[0] and l + n >= want[0] + want[1]:
                return True
        for e in f.seq:
            pass
    return False


def chunk0(f, p):
    """address of the first chunk"""
    return ptr(mk('load', ptr(f.t, p.vec), None), 0)


def check_clear(ctx, tag, m, name, ctor, p, buckets, count, active=None, actives=None, ref=None, size=0, dead=()):
    eng, cl = run_pool(ctx, m, name)
    fl = fills(eng, cl)
    init = ctor_fields(ctx, m, ctor)
    loc = 'clear of ' + tag
    t = mk('arg', 0)
    for (st, val, tr), r in zip(cl.finals, cl.rets):
        f = Fin(eng, cl, st, r, t)
        for what, kind, want in buckets:
            ctx.ob('%s: %s emptied' % (tag, what), covers(f, fl, kind, want, 0, None), 'clear() does not set every bucket of %s to null' % what, loc, tr)
        ctx.ob('%s: free list emptied' % tag, f.field(p.head) is NULL, 'returned elements stay in the free list', loc, tr)
        X = chunk0(f, p)
        it, end = f.field(p.it), f.field(p.end)
        ctx.ob('%s: handing out starts with the first chunk' % tag, noep(it) is mk('load', X, None), 'the chunk position becomes %s' % show(it), loc, tr)
        ctx.ob('%s: the first chunk ends where it ends' % tag, noep(end) is mk('load', ptr(X.a[0], 8), None), 'the end of the chunk becomes %s' % show(end), loc, tr)
        if p.cid is not None:
            ctx.ob('%s: the current chunk is the first' % tag, f.zero(p.cid), 'the number of the current chunk stays', loc, tr)
            for h in f.loops():
                for it_ in cl.iters.get(h, ()):
                    d = [x for x in it_[1] if x[0] == 'st' and as_ptr(x[1]) is ptr(t, p.cid)]
                    n = [x for x in it_[1] if x[0] == 'shrink' and x[2] == 'pop_back']
                    if d or n:
                        dd = t_add(64, d[-1][2], mk('load', ptr(t, p.cid), ('loop', h)), -1) if d else None
                        ctx.ob('%s: one chunk released per step' % tag, len(n) == 1 and dd is ci(64, -1), 'the loop releases %d chunks and changes the chunk number by %s' % (len(n), dd), loc, tr)
        if ref is not None:
            ok = any(True for _ in ())
            for h in f.loops():
                if h in fl and fl[h][0].stride is not None:
                    c, cells = fl[h]
                    b, e = as_ptr(c.base), as_ptr(c.end)
                    v = cells.get(ref)
                    if v is not None and v.k == 'i' and v.a[1] == 0 and c.stride == size and noep(aspval(b)) is mk('load', X, None) and noep(aspval(e)) is mk('load', ptr(X.a[0], 8), None):
                        ok = True
                elif h in fl and fl[h][0].stride is None and covers_index(f, fl[h], ref, X):
                    ok = True
            ctx.ob('%s: reference counts of the kept storage reset' % tag, ok, 'elements of the first chunk keep their reference count', loc, tr)
        for what, off in (('element count', count), ('active count', active)):
            if off is not None:
                ctx.ob('%s: %s is zero' % (tag, what), f.zero(off), 'the %s is %s after clear()' % (what, show(f.field(off))), loc, tr)
        if actives is not None:
            ctx.ob('%s: active counts per variable are zero' % tag, covers(f, fl, 'vec', ptr(t, actives), 0, None) or any(
                e[0] == 'assign' and e[1] is ptr(t, actives) and e[2] is ci(64, 0) for e in f.seq), 'the counts per variable stay', loc, tr)
        for off, v in init.items():
            w = f.field(off)
            if v.k in ('i', 'f') and w.k in ('i', 'f'):
                ctx.ob('%s: numeric fields as in a new table' % tag, w is v, 'the field %s is %s in a new table, %s after clear()' % (off, show(v), show(w)), loc, tr)
        for off in dead:
            w = f.field(off)
            ctx.ob('%s: collection limit as in a new table' % tag, w is init.get(off), 'the collection limit becomes %s, a new table has %s' % (show(w), show(init[off]) if off in init else '?'), loc, tr)
    ctx.require(tag + ' clear paths', len(cl.rets), 1)


def covers_index(f, cf, ref, X):
    c, cells = cf
    v = cells.get(ref)
    return v is not None and v.k == 'i' and v.a[1] == 0 and c.from_ is not None and noep(aspval(c.from_)) is mk('load', X, None)


def ctor_fields(ctx, m, name):
    """constants the constructor leaves in the fields"""
    eng, cl = run_pool(ctx, m, name)
    t = mk('arg', 0)
    out = None
    for (st, val, tr), r in zip(cl.finals, cl.rets):
        f = Fin(eng, cl, st, r, t)
        cur = {}
        for e in f.seq:
            if e[0] == 'st' and pbase(e[1]) is t and e[3] == 8:
                cur[poff(e[1])] = f.field(poff(e[1]))
        out = cur if out is None else {o: v for o, v in out.items() if cur.get(o) is v}
    return out or {}


def limit_field(ctx, m, name, t=mk('arg', 0)):
    """the field the element count is compared with"""
    eng, cl = run_fn(m, name)
    for r in cl.rets:
        for x in leaves(r[4]):
            if x.k == 'icmp':
                return [poff(y.a[0]) for y in x.a[1:3] if y.k == 'load' and pbase(y.a[0]) is t]
    return []


def check_package(ctx, di):
    members = c01.package_members(di)
    cls = tuple(sorted({'dd::' + c + '::' for c in c01.classes(members) if c and not c.startswith('vector')}) + ['dd::ComplexTable::', 'dd::ComplexNumbers::', 'dd::ComplexCache::'])
    m = ctx.module(['e_pkg_reset', 'e_pkg_clearUniqueTables', 'e_pkg_clearComputeTables', 'n_clear'], lambda s, d: s.startswith(cls))
    tables = [n for n, o, t in members if t.startswith('UniqueTable')]
    numbers = [n for n, o, t in members if t.startswith('ComplexNumbers')]
    memos = [(n, o) for n, o, t in members if c01.stored(t)[0] and n not in tables]
    for fn, need in (('e_pkg_clearUniqueTables', tables), ('e_pkg_clearComputeTables', [n for n, o in memos]), ('e_pkg_reset', tables + [n for n, o in memos] + numbers)):
        cl = c01.GcClient(members)
        eng = Engine(m.fn(fn), cl, m.statics).run()
        ctx.ran(eng)
        ranges = c01.cleared_ranges(eng, cl)
        for ev, eff, facts, mem, val, tr in cl.rets:
            done = {e[1] for e in ev if e[0] == 'clear'}
            offs = {poff(ranges[e[1]]) for e in ev if e[0] == 'loop' and e[1] in ranges and pbase(ranges[e[1]]) is mk('arg', 0)}
            for n in need:
                off = [o for k, o in memos if k == n]
                ctx.ob('%s: %s' % (fn.split('_')[-1], n), n in done or (off and off[0] in offs), '%s does not empty %s on this path' % (fn.split('_')[-1], n), 'Package::' + fn.split('_')[-1], tr)
        ctx.require(fn + ' paths', len(cl.rets), 1)
    # the numbers: table and cache
    mem = di.members(di.record('ComplexNumbers'))

    class C(LogClient):
        def call(self, eng, st, inst, short, full, args):
            if short.startswith('dd::') and args:
                self.event(st, ('call', short, as_ptr(args[0])))
                return True
            return None
    cl = C()
    m2 = ctx.module(['n_clear'], lambda s, d: s in ('dd::ComplexTable::clear', 'dd::ComplexCache::clear'))
    eng = Engine(m2.fn('n_clear'), cl, m2.statics).run()
    ctx.ran(eng)
    for ev, eff, facts, mm, val, tr in cl.rets:
        for n, o, t in mem:
            c = strip_templates(di.tname(t)).split('::')[-1]
            if c in ('ComplexTable', 'ComplexCache'):
                ctx.ob('numbers: %s' % c, any(e[0] == 'call' and e[1] == 'dd::%s::clear' % c and e[2] is ptr(mk('arg', 0), o) for e in ev), 'clearing the numbers does not clear the %s' % c, 'ComplexNumbers::clear', tr)


def check(ctx):
    ctx.rule('Every path of clear() nulls every bucket (full-range loops), the free list, the counts, returns to the first chunk, whose elements get reference count zero, and gives every numeric field it '
             'sets the value the constructor gives it; reset and the clear functions of the package reach every table, memo table, the identity table and the numbers.')
    di = ctx.di()
    roots = ['u_%s_%s' % (f, s) for s in 'vmd' for f in ('getNode', 'returnNode', 'clear', 'ctor', 'getNodeCount', 'getActiveNodeCount', 'getActiveNodeCountVar', 'getTables', 'possiblyNeedsCollection')] + [
        't_getEntry', 't_returnEntry', 't_clear', 't_ctor', 't_getCount', 't_getTable', 't_possiblyNeedsCollection', 'k_getCached', 'k_return', 'k_clear', 'k_ctor', 'k_getCount']
    m = ctx.module(roots, lambda s, d: cut(s, d) or s in ('std::vector::at',))

    def pool(tag, *a):
        p = Pool(ctx, tag, m, *a)
        if not ctx.ob('%s: pool recognised' % tag, p.ok, 'no free list or chunk position found', tag):
            return None
        p.cid = None
        for (st, val, tr), r in zip(p.cl.finals, p.cl.rets):
            for (b, o), (sz, v) in st.mem.items():
                if b is p.t and any(e[0] == 'grow' for e in r[1]):
                    d = t_add(64, v, mk('load', ptr(b, o), None), -1)
                    dv = [x for x in leaves(eng_it(p, st)) if x.k == 'idx']
                    if dv and any(o == poff(y.a[0]) for q in dv for y in lin_parts(q.a[2], 64)[0] if y.k == 'load' and pbase(y.a[0]) is b):
                        p.cid = o
        return p
    for s in 'vmd':
        p = pool(s + 'Node', 'u_getNode_' + s, 'u_returnNode_' + s, di.size(di.record(s + 'Node')), False)
        if p is None:
            continue
        tabs = getter_offset(m, 'u_getTables_' + s)
        cnt, act = getter_offset(m, 'u_getNodeCount_' + s), getter_offset(m, 'u_getActiveNodeCount_' + s)
        eng, cl = run_fn(m, 'u_getActiveNodeCountVar_' + s)
        vecs = {poff(x.a[0]) for r in cl.rets for x in leaves(r[4]) if x.k == 'load' and pbase(x.a[0]) is mk('arg', 0)}
        av = at_base(eng)
        if av is None and len(vecs) == 1:
            av = vecs.pop()
        lim = [o for o in limit_field(ctx, m, 'u_possiblyNeedsCollection_' + s) if o != cnt]
        check_clear(ctx, s + 'Node table', m, 'u_clear_' + s, 'u_ctor_' + s, p, [('the buckets', 'vec', ptr(mk('arg', 0), tabs))], cnt, act, av, di.layout(s + 'Node')['ref'], p.size, lim)
    p = pool('number', 't_getEntry', 't_returnEntry', di.size(di.record('Entry')), False)
    if p is not None:
        mem = di.members(di.record('ComplexTable<'))
        tab, cnt = getter_offset(m, 't_getTable'), getter_offset(m, 't_getCount')
        sz = [di.size(ty) for n, o, ty in mem if o == tab][0]
        bk = [('the buckets' if o == tab else 'the bucket tails', 'inline', (o, sz)) for n, o, ty in mem if di.size(ty) == sz]
        lim = [o for o in limit_field(ctx, m, 't_possiblyNeedsCollection') if o != cnt]
        check_clear(ctx, 'number table', m, 't_clear', 't_ctor', p, bk, cnt, None, None, di.layout('Entry')['refCount'], p.size, lim)
    p = pool('scratch number', 'k_getCached', 'k_return', di.size(di.record('Entry')), True, 1)
    if p is not None:
        p.t = mk('arg', 0)
        check_clear(ctx, 'scratch number cache', m, 'k_clear', 'k_ctor', p, [], getter_offset(m, 'k_getCount'))
    check_package(ctx, di)


def eng_it(p, st):
    return p.eng.load(st, ptr(p.t, p.it), 8)


def at_base(eng):
    """offset of the container the accessor indexes"""
    for i in eng.fn.insts.values():
        if i.op == 'call' and 'at' in eng.short(i.callee)[0]:
            st = State()
            o = i.ops[0]
            off = 0
            while o[0] == 'v':
                g = eng.fn.insts.get(o[1])
                if g is None:
                    return off
                off += g.x[1]
                o = g.x[0]
    return None
