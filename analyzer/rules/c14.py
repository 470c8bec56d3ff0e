"""C14: interning numbers: within tolerance, sorted buckets, exact links, signs."""
from common import *
from absint import *
from loops import *
from roles import *
from rules.c02 import mkstate


class NumClient(LogClient):
    """tolerance comparisons of plain numbers, the hash and the pool are opaque (each has its own rule)"""

    def __init__(self):
        super().__init__()
        self.finals = []

    def readonly(self, eng, short):
        return short == 'dd::ComplexTable::Entry::approximatelyEquals' or short == 'dd::ComplexTable::hash'

    def call(self, eng, st, inst, short, full, args):
        if short == 'dd::ComplexTable::Entry::approximatelyEquals':
            a, b = args
            if 'double' not in full.split('(')[-1]:
                a, b = eng.load(st, a, 8), eng.load(st, b, 8)
            st.env[inst.id] = approx(a, b)
            return True
        if short == 'dd::ComplexTable::hash':
            st.env[inst.id] = mk('hash', args[-1])
            return True
        if short == 'dd::ComplexTable::getEntry':
            st.env[inst.id] = mk('fresh', inst.id)
            return True
        if short == 'dd::ComplexTable::tolerance':
            st.env[inst.id] = mk('tolerance')
            return True
        if short == 'dd::ComplexTable::lookup' and len(args) == 2:
            v = eng.load(st, args[1], 8)
            st.env[inst.id] = mk('tablookup', v)
            return True
        return None

    def ret(self, eng, st, inst, val):
        super().ret(eng, st, inst, val)
        self.finals.append((st.copy(), val, eng.trace(st)))


def approx(a, b):
    if a is b:
        return TRUE
    if b.n < a.n:
        a, b = b, a
    return mk('approx', a, b)


def check_lookup(ctx, di):
    cut = lambda s, d: s in ('dd::ComplexTable::hash', 'dd::ComplexTable::getEntry', 'dd::ComplexTable::Entry::approximatelyEquals')
    m = ctx.module(['t_lookup', 't_getTable', 't_getCount', 't_returnEntry'], cut)
    cl = NumClient()
    eng = Engine(m.fn('t_lookup'), cl, m.statics).run()
    ctx.ran(eng)
    lay = di.layout('Entry')
    t, v = mk('arg', 0), mk('arg', 1)
    tab = getter_offset(m, 't_getTable')
    cnt = getter_offset(m, 't_getCount')
    loc = 'ComplexTable::lookup'
    mem = di.members(di.record('ComplexTable<'))
    tabsz = [di.size(ty) for n, o, ty in mem if o == tab][0]
    tails = [o for n, o, ty in mem if di.size(ty) == tabsz and o != tab]
    ctx.require('tail table members', len(tails), 1)
    tail = tails[0]
    tol = None
    for b in m.statics:
        pass
    # the tolerance is the static that the lookup adds to / subtracts from the value
    tols = {x for h in cl.iters for it in cl.iters[h] for k in it[2] for y in k[1:] if isinstance(y, T) for x in leaves(y) if x.k == 'load' and pbase(x.a[0]).k == 'glob' and m.dname(pbase(x.a[0]).a[0]).endswith('TOLERANCE')}
    for st, val, tr in cl.finals:
        tols |= {x for k in st.facts for y in k[1:] if isinstance(y, T) for x in leaves(y) if x.k == 'load' and pbase(x.a[0]).k == 'glob' and m.dname(pbase(x.a[0]).a[0]).endswith('TOLERANCE')}
    if not ctx.ob('lookup: tolerance used', len(tols) == 1, 'the lookup does not use one tolerance: %s' % tols, loc):
        return
    tol = tols.pop()
    plus = eng.farith('fadd', v, tol)
    minus = eng.farith('fsub', v, tol)

    def H(x):
        return mk('hash', x)

    def le(st, a, b):
        # values are ordered (numbers are finite)
        r = eng.decide(st, mk('fcmp', 'ole', a, b))
        g = eng.decide(st, mk('fcmp', 'olt', b, a))
        return r if r is not None else None if g is None else not g

    def bool_fact(st, x):
        return st.facts.get(('b', x))

    def known_approx(st, a, b):
        if bool_fact(st, approx(a, b)) is not None or a is b:
            return True if a is b else bool_fact(st, approx(a, b))
        return None

    def within(st, X, depth=0):
        """is entry X known to be within tolerance of v"""
        x = eng.load(st, ptr(X, lay['value']), 8)
        r = known_approx(st, v, x)
        if r is not None:
            return r
        d = [mk('fabs', eng.farith('fsub', x, v)), mk('fabs', eng.farith('fsub', v, x))]
        for key, val in st.facts.items():
            if key[0] != 'fc':
                continue
            # |x-v| < |y-v| with y within tolerance
            _, pred, a, b = key
            if val is True and a in d or val is False and b in d:
                other = b if a in d else a
                if other.k == 'fabs' and other.a[0].k == 'fsub':
                    y = [q for q in other.a[0].a if q is not v]
                    if len(y) == 1 and known_approx(st, v, y[0]) is True:
                        return True
            if pred == 'ole' and a in d and b is tol:
                return val
        return None

    def keq(st, a, b):
        """bucket indices known equal (None: unknown)"""
        if a is b:
            return True
        return eng.decide(st, mk('icmp', 'eq', a, b, 64))

    def slot_of_val(st, S, base):
        """S = table slot -> is it the bucket of v?"""
        b, o = as_ptr(S).a
        if b.k != 'idx' or o != 0 or as_ptr(b.a[0]) is not ptr(t, base) or b.a[1] != 8:
            return None
        return b.a[2]
    statics = {0.0: None, 1.0: None, 0.7071067811865476: None}
    n_ins = n_find = n_stat = 0

    # ---- loops: walks over one bucket
    walk = {}
    for h in cl.iters:
        for pid, init in next(iter(cl.inits[h])):
            P = mk('phi', h, pid)
            if init.k == 'load' and pbase(init.a[0]).k == 'idx' and all(it[0][pid].k == 'load' and as_ptr(it[0][pid].a[0]) is ptr(P, lay['next']) for it in cl.iters[h]):
                walk[h] = (P, as_ptr(init.a[0]))
        if not ctx.ob('lookup: loops walk a bucket', h in walk, 'a loop of the lookup does not follow the chain of a bucket element by element', eng.fn.where(eng.fn.blocks[h].insts[-1])):
            return
        P, slot = walk[h]
        prevs = []
        for pid, init in next(iter(cl.inits[h])):
            Q = mk('phi', h, pid)
            if Q is not P and all(it[0][pid] is P for it in cl.iters[h]) and init is NULL:
                prevs.append(('node', Q))
            if Q is not P and all(as_ptr(it[0][pid]) is ptr(P, lay['next']) for it in cl.iters[h]) and as_ptr(init) is slot:
                prevs.append(('link', Q))
        walk[h] = (P, slot, prevs)
        for st in cl.iter_states[h]:
            x = eng.load(st, ptr(P, lay['value']), 8)
            a = known_approx(st, v, x)
            ok = le(st, x, v) is True or (le(st, x, plus) is True and a is False) or le(st, v, x) is False
            ctx.ob('lookup: passes only smaller numbers', ok, 'the walk passes an element that is not known to be smaller than the number looked up, so the bucket does not stay sorted',
                   eng.fn.where(eng.fn.blocks[h].insts[-1]), eng.trace(st))
            lowfirst = P in ()
        for it in cl.iters[h]:
            bad = [e for e in it[1] if e[0] == 'st' and pbase(e[1]) is not t]
            ctx.ob('lookup: walks change nothing', not bad, 'the walk writes %s' % bad, loc)
    # ---- results
    for st, val, tr in cl.finals:
        hs = [e[1] for e in st.c[0] if e[0] == 'loop']
        wr = [(k, c) for k, c in st.mem.items() if k[0].k != 'alloca']
        links = [(k, c[1]) for k, c in wr if k[0] is not t and not (k[0].k == 'fresh')]
        dc = 0
        c = st.mem.get((t, cnt))
        if c:
            p, k = lin_parts(c[1], 64)
            dc = k if len(p) == 1 and next(iter(p)).k == 'load' and as_ptr(next(iter(p)).a[0]) is ptr(t, cnt) else None
        if pbase(val).k == 'glob':
            n_stat += 1
            x = m.statics.get(pbase(val).a[0], {}).get(lay['value'])
            ok = False
            if x is not None:
                ok = known_approx(st, v, x) is True
                if x.k == 'f' and x.a[0] == 0.0:
                    ok = ok or le(st, mk('fabs', v), tol) is True or le(st, v, tol) is True
            ctx.ob('lookup: a static number is answered only within tolerance', ok, 'answers the static %s without knowing that the number is within tolerance of it' % show(x), loc, tr)
            ctx.ob('lookup: answering a static number stores nothing', not links and dc == 0, 'the table is changed', loc, tr)
            continue
        # not a static number: none of them is within tolerance
        for nm, x in (('1', cf(1.0)), ('sqrt(1/2)', cf(0.7071067811865476))):
            ctx.ob('lookup: %s is shared' % nm, known_approx(st, v, x) is False, 'a number that may be within tolerance of %s is not answered with the static entry' % nm, loc, tr)
        z = le(st, mk('fabs', v), tol)
        z = le(st, v, tol) if z is None else z
        z = known_approx(st, v, cf(0.0)) if z is None else z
        ctx.ob('lookup: 0 is shared', z is False, 'a number that may be within tolerance of 0 is not answered with the static entry', loc, tr)
        same = keq(st, H(minus), H(plus))
        if val.k == 'fresh':
            n_ins += 1
            ctx.ob('lookup: a stored number is exactly the one looked up', eng.load(st, ptr(val, lay['value']), 8) is v, 'stores %s' % show(eng.load(st, ptr(val, lay['value']), 8)), loc, tr)
            ctx.ob('lookup: storing counts once', dc == 1, 'the element count changes by %s' % dc, loc, tr)
            ws = [h for h in hs if h in walk]
            if not ctx.ob('lookup: the insert position is found by walking the bucket', len(ws) >= 1, 'stores without walking the bucket', loc, tr):
                continue
            h = ws[-1]
            P, slot, prevs = walk[h]
            key = slot_of_val(st, slot, tab)
            ok = key is not None and (keq(st, key, H(v)) is True or (key in (H(minus), H(plus)) and same is True))
            ctx.ob('lookup: stored into the bucket of its value', ok, 'stores into bucket %s' % (show(key) if key is not None else show(slot)), loc, tr)
            pn = eng.decide(st, mk('pcmp', 'eq', P, NULL))
            x = eng.load(st, ptr(P, lay['value']), 8)
            stop = pn is True or le(st, x, v) is False or le(st, x, plus) is False or le(st, v, x) is True
            ctx.ob('lookup: stored before the first larger number', stop, 'the walk stops at an element that is not known to be larger', loc, tr)
            ctx.ob('lookup: the successor of a stored number', eng.load(st, ptr(val, lay['next']), 8, 'ptr') is P, 'the new element links to %s instead of the element the walk stopped at' % show(eng.load(st, ptr(val, lay['next']), 8, 'ptr')), loc, tr)
            good, rest = False, []
            for (b, o), w in links:
                a = ptr(b, o)
                if a is ptr(t, 0):
                    continue
                if w is val:
                    for kind, Q in prevs:
                        if kind == 'link' and a is as_ptr(Q):
                            good = True
                            break
                        if kind == 'node':
                            qn = eng.decide(st, mk('pcmp', 'eq', Q, NULL))
                            if a is slot and qn is True or a is ptr(Q, lay['next']) and qn is False:
                                good = True
                                break
                    else:
                        if slot_of_val(st, a, tail) is not None and keq(st, slot_of_val(st, a, tail), key) is not False and (slot_of_val(st, a, tail) is key or keq(st, slot_of_val(st, a, tail), key) is True):
                            ctx.ob('lookup: the tail is a stored number only if it is last', pn is True, 'the tail of the bucket is set although the new element is not known to be last', loc, tr)
                            continue
                        rest.append(a)
                else:
                    rest.append(a)
            ctx.ob('lookup: the predecessor of a stored number', good, 'neither the bucket (if the element is first) nor the last smaller element is linked to the new element', loc, tr)
            ctx.ob('lookup: storing changes nothing else', not rest, 'storing also writes %s' % [show(a) for a in rest], loc, tr)
            if pn is True:
                tl = [slot_of_val(st, ptr(*k), tail) for k, w in links if w is val]
                ctx.ob('lookup: the tail follows', any(k is not None and (k is key or keq(st, k, key) is True) for k in tl), 'the new last element of the bucket does not become its tail', loc, tr)
            # nothing within tolerance was stored
            if same is True:
                def filt(st2):
                    x = eng.load(st2, ptr(P, lay['value']), 8)
                    return known_approx(st2, v, x) is False
                ctx.ob('lookup: no number within tolerance is passed over', all(filt(s2) for s2 in cl.iter_states[h]), 'an element within tolerance may be passed over and a second one stored', loc, tr)
                far = pn is True or le(st, x, plus) is False or known_approx(st, v, x) is False
                ctx.ob('lookup: no number within tolerance follows', far, 'the walk stops at an element that may be within tolerance', loc, tr)
            else:
                low = high = False
                for y, base in border(st, tab, tail, t):
                    k = slot_of_val(st, y.a[0], base)
                    x = eng.load(st, ptr(y, lay['value']), 8)
                    clear = eng.decide(st, mk('pcmp', 'eq', y, NULL)) is True or known_approx(st, v, x) is False
                    if not clear:
                        continue
                    if base == tail and (k is H(minus) or keq(st, k, H(minus)) is True):
                        low = True
                    if base == tab and (k in (H(plus), H(v)) or keq(st, k, H(plus)) is True or keq(st, k, H(v)) is True) and keq(st, k, H(minus)) is not True:
                        high = True
                # the bucket searched itself may be walked completely instead
                ctx.ob('lookup: the neighbouring bucket below is considered', low, 'at a bucket border a number is stored without having excluded the last number of the bucket below', loc, tr)
                ctx.ob('lookup: the neighbouring bucket above is considered', high, 'at a bucket border a number is stored without having excluded the first number of the bucket above', loc, tr)
            continue
        # an entry of the table
        n_find += 1
        ctx.ob('lookup: a stored number is answered only within tolerance', within(st, val) is True and eng.decide(st, mk('pcmp', 'eq', val, NULL)) is not True,
               'answers %s without knowing that it is within tolerance' % show(val), loc, tr)
        ctx.ob('lookup: answering a stored number stores nothing', not links and dc == 0, 'the table is changed', loc, tr)
    ctx.require('static answers', n_stat, 3)
    ctx.require('found answers', n_find, 3)
    ctx.require('stored answers', n_ins, 3)


def border(st, tab, tail, t):
    out = set()
    for key in st.facts:
        for x in key[1:]:
            if isinstance(x, T):
                for y in leaves(x):
                    if y.k == 'load' and pbase(y.a[0]).k == 'idx' and poff(y.a[0]) == 0:
                        b = as_ptr(pbase(y.a[0]).a[0])
                        if b is ptr(t, tab):
                            out.add((y, tab))
                        if b is ptr(t, tail):
                            out.add((y, tail))
    return out


def check_signs(ctx, di):
    """ComplexNumbers::lookup: components, signs, zero"""
    cut = lambda s, d: s == 'dd::ComplexTable::lookup' or s == 'dd::ComplexTable::tolerance'
    names = {'n_lookup_rf': (mk('arg', 2), mk('arg', 3)), 'n_lookup_cv': (mk('load', ptr(mk('arg', 2), 0), None), mk('load', ptr(mk('arg', 2), 8), None)),
             'n_lookup_std': (mk('load', ptr(mk('arg', 2), 0), None), mk('load', ptr(mk('arg', 2), 8), None)), 'n_lookup_c': None}
    m = ctx.module(list(names), cut)
    zero = one = None
    for g in m.statics:
        d = m.dname(g)
        if d.startswith('dd::ComplexTable') and d.split('::')[-1] == 'zero':
            zero = mk('glob', g)
        if d.startswith('dd::ComplexTable') and d.split('::')[-1] == 'one':
            one = mk('glob', g)
    ctx.require('static zero/one', (zero is not None) + (one is not None), 2)

    for name, comps in names.items():
        cl = NumClient()
        eng = Engine(m.fn(name), cl, m.statics).run()
        ctx.ran(eng)
        n = 0
        for st, val, tr in cl.finals:
            n += 1
            res = [eng.load(st, ptr(mk('arg', 0), o), 8, 'ptr') for o in (0, 8)]
            if comps is None:
                a = [mk('load', ptr(mk('arg', 2), o), None) for o in (0, 8)]
                kn = [known_ptr(eng, st, x, zero, one) for x in a]
                if res[0] in (zero, one) and res[1] is zero and kn[1] is zero and kn[0] is res[0]:
                    ctx.ob('interning a handle: the static numbers map to themselves', True)
                    continue
                cs = []
                for x in a:
                    # the signed value of a handle
                    cs.append([(('handle', x))])
                for j, r in enumerate(res):
                    ok, why = handle_ok(eng, st, a[j], r, zero, m)
                    ctx.ob('interning a handle: %s part' % ('real', 'imaginary')[j], ok, why, name, tr)
                continue
            for j, (x, r) in enumerate(zip(comps, res)):
                ok, why = sign_ok(eng, st, x, r, zero)
                ctx.ob('interning %s: %s part' % (name[9:], ('real', 'imaginary')[j]), ok, why, name, tr)
            bad = [k for k in st.mem if k[0].k not in ('alloca',) and k[0] is not mk('arg', 0)]
            ctx.ob('interning %s: writes nothing itself' % name[9:], not bad, 'writes %s' % bad, name, tr)
        ctx.require(name + ' paths', n, 1)


def known_ptr(eng, st, x, *cands):
    for c in cands:
        if eng.decide(st, mk('pcmp', 'eq', x, c)) is True:
            return c
    return None


def negative(eng, st, x):
    """sign known on the path"""
    for key, v in st.facts.items():
        ls = set()
        for y in key[1:]:
            if isinstance(y, T):
                ls |= leaves(y)
        if x not in ls:
            continue
        if key[0] == 'fc' and key[1] == 'olt' and key[2] is x and key[3].k == 'f' and key[3].a[0] == 0.0:
            return v
        if key[0] == 'fc' and key[1] == 'ole' and key[3] is x and key[2].k == 'f' and key[2].a[0] == 0.0:
            return not v
        if key[0] == 'r' and (key[1] is x or key[1].k == 'bitcast' and key[1].a[-1] is x):
            if v[1] < 0:
                return True
            if v[0] >= 0:
                return False
    return None


def sign_ok(eng, st, x, r, zero):
    neg = negative(eng, st, x)
    f = mk('fabs', x.a[0] if x.k == 'fneg' else x)
    # the magnitude; of a negative number it is also the number's negation
    minus = x.a[0] if x.k == 'fneg' else mk('fneg', x)
    fs = [f] + ([minus] if neg else [])
    below = above = False
    tols = {mk('tolerance')} | {y for k in st.facts for z in k[1:] if isinstance(z, T) for y in leaves(z)
                                if y.k == 'load' and pbase(y.a[0]).k == 'glob' and eng.mod.dname(pbase(y.a[0]).a[0]).endswith('TOLERANCE')}
    for tol in tols:
        for g in fs:
            if eng.decide(st, mk('fcmp', 'ole', g, tol)) is True or eng.decide(st, mk('fcmp', 'olt', g, tol)) is True:
                below = True
            if eng.decide(st, mk('fcmp', 'ole', g, tol)) is False or eng.decide(st, mk('fcmp', 'olt', tol, g)) is True:
                above = True
        lo = mk('fneg', tol)
        if neg and (eng.decide(st, mk('fcmp', 'ole', lo, x)) is True or eng.decide(st, mk('fcmp', 'olt', lo, x)) is True):
            below = True
        if neg and (eng.decide(st, mk('fcmp', 'ole', lo, x)) is False or eng.decide(st, mk('fcmp', 'olt', x, lo)) is True):
            above = True
    b, bits = tag_bits(r)
    b = aspval(b)
    if r is zero:
        if below:
            return True, ''
        return False, 'the shared 0 is answered although the number is not known to be within tolerance of 0'
    if b.k == 'tablookup':
        y = b.a[0]
        if neg is None:
            return False, 'the sign of the number is not examined'
        if neg:
            if bits[0] != '1':
                return False, 'a negative number is answered with a handle that is not marked negative'
            if y not in fs:
                return False, 'interns %s instead of the magnitude' % show(y)
            # the magnitude must not be interned as 0 (a negative zero)
            if above:
                return True, ''
            return False, 'a magnitude of exactly the tolerance is interned as 0 and then marked negative: a zero that is not recognised as zero'
        if bits[0] == '1':
            return False, 'a non-negative number is answered with a handle marked negative'
        if y is not x and y is not f:
            return False, 'interns %s instead of the number' % show(y)
        return True, ''
    return False, 'answers %s, which is neither the shared 0 nor an interned number' % show(r)


def handle_ok(eng, st, h, r, zero, m):
    """lookup(Complex): like the value lookup of the handle's signed value"""
    # the value read from the handle
    cands = set()
    b, bits = tag_bits(r)
    b = aspval(b)
    src = [x for k in st.facts for y in k[1:] if isinstance(y, T) for x in leaves(y)] + (list(leaves(b)) if b.k == 'tablookup' else [])
    for x in src:
        if x.k == 'load' and h in leaves(x):
            cands.add(x)
            cands.add(mk('fneg', x))
    tag = eng.rget(st, mk('bits', h, 1), 64)
    for x in cands:
        base = x.a[0] if x.k == 'fneg' else x
        a = as_ptr(base.a[0])
        hb, hbits = tag_bits(a)
        if hbits[0] == '0':          # value of the untagged entry
            if tag[0] == tag[1] and (tag[0] == 1) != (x.k == 'fneg'):
                continue
            if tag[0] != tag[1]:
                continue
        elif hbits[0] == 'k':
            if not (tag[0] == tag[1] == 0) or x.k == 'fneg':
                continue
        ok, why = sign_ok(eng, st, x, r, zero)
        if ok:
            return True, ''
    return False, 'the answer does not correspond to the (signed) value of the handle: %s' % show(r)


def check_hash(ctx, di):
    """the bucket of a number: a monotone function of the number with an index inside the table"""
    m = ctx.module(['t_hash', 't_getTable'])
    eng, cl = run_fn(m, 't_hash', None, ctx)
    tab = getter_offset(m, 't_getTable')
    nb = [di.size(ty) for n, o, ty in di.members(di.record('ComplexTable<')) if o == tab][0] // 8
    v = mk('arg', 0)

    def mono(x):
        """+1 increasing, 0 constant, None unknown"""
        if x is v:
            return 1
        if x.k in ('i', 'f'):
            return 0
        if x.k in ('fmul', 'fdiv') and any(y.k == 'f' and y.a[0] > 0 for y in x.a[1:] if x.k == 'fdiv') or x.k == 'fmul' and any(y.k == 'f' and y.a[0] > 0 for y in x.a):
            o = [y for y in x.a if y.k != 'f']
            return mono(o[0]) if len(o) == 1 else None
        if x.k == 'fadd' and any(y.k == 'f' for y in x.a):
            o = [y for y in x.a if y.k != 'f']
            return mono(o[0]) if len(o) == 1 else None
        if x.k.startswith('fn_') and any(w in x.k for w in ('nearbyint', 'floor', 'ceil', 'rint', 'round', 'trunc')):
            return mono(x.a[0])
        if x.k in ('fptosi', 'fptoui', 'sext', 'zext'):
            return mono(x.a[-1])
        return None
    n = 0
    for ev, eff, facts, mem, val, tr in cl.rets:
        n += 1
        st = mkstate(facts)
        hi = val.a[1] if val.k == 'i' else eng.rget(st, val, 64)[1]
        ctx.ob('hash: bucket index inside the table', hi < nb, 'the bucket index can exceed the table (%s)' % show(val), 'ComplexTable::hash', tr)
        if val.k == 'i':
            clip = any(k[0] == 'r' and mono(k[1]) == 1 and r[0] >= val.a[1] for k, r in facts.items())
            ctx.ob('hash: only numbers above the table are clipped', clip, 'answers bucket %s for numbers that may belong to a lower one' % show(val), 'ComplexTable::hash', tr)
        ctx.ob('hash: larger numbers never go to lower buckets', mono(val) is not None, 'the bucket index %s is not a monotone function of the number' % show(val), 'ComplexTable::hash', tr)
    ctx.require('hash paths', n, 1)


def check(ctx):
    ctx.rule('Number lookup: on every path the answer is a static number or stored entry known to be within tolerance, or a fresh entry holding exactly the number, linked between the last '
             'smaller and the first larger element of the bucket of its value (tail updated iff last, count +1), after the whole bucket, or at a border both neighbours, were known not to be '
             'within tolerance. Interning a complex number maps each component to the table entry of its magnitude, marked negative exactly for negative numbers, and magnitudes within tolerance to the shared 0.')
    di = ctx.di()
    check_hash(ctx, di)
    check_lookup(ctx, di)
    check_signs(ctx, di)
