"""C06: memo tables answer only for the operands a result was stored for; storing is complete; clearing is complete."""
from common import *
from absint import *
from loops import *
from rules.c02 import mkstate

BIN = {'vectorAdd': 'vCachedEdge vCachedEdge vCachedEdge', 'matrixAdd': 'mCachedEdge mCachedEdge mCachedEdge', 'densityAdd': 'dCachedEdge dCachedEdge dCachedEdge',
       'matrixVectorMultiplication': 'mEdge vEdge vCachedEdge', 'matrixMatrixMultiplication': 'mEdge mEdge mCachedEdge',
       'densityDensityMultiplication': 'dEdge dEdge dCachedEdge', 'vectorInnerProduct': 'vEdge vEdge vCachedEdge',
       'vectorKronecker': 'vEdge vEdge vCachedEdge', 'matrixKronecker': 'mEdge mEdge mCachedEdge'}
UN = ['matrixTranspose', 'conjugateMatrixTranspose']


class MemoClient(LogClient):
    """containers (sets, vectors of qubits) are opaque values held at their address"""

    def __init__(self):
        super().__init__()
        self.finals = []

    def readonly(self, eng, short):
        return short == 'dd::ComplexTable::Entry::approximatelyEquals' or short.split('::')[-1] == 'hash'

    def content(self, eng, st, a):
        return eng.load(st, as_ptr(a), 8)

    def call(self, eng, st, inst, short, full, args):
        meth = short.split('::')[-1]
        if short == 'dd::ComplexTable::Entry::approximatelyEquals':
            a, b = args[0], args[1]
            if a is b:
                st.env[inst.id] = TRUE
            else:
                if b.n < a.n:
                    a, b = b, a
                st.env[inst.id] = mk('approx', a, b)
            return True
        if meth == 'hash' and inst.ty.startswith('i'):
            ops = []
            for o, a in zip(inst.ops, args):
                isp = self.ispp(eng, o)
                ops.append(self.content(eng, st, a) if isp else a)
            st.env[inst.id] = mk('hash', *ops)
            return True
        if short in ('std::operator!=', 'std::operator==') and len(args) == 2 and ('vector<' in full or 'set<' in full):
            a, b = self.content(eng, st, args[0]), self.content(eng, st, args[1])
            if b.n < a.n:
                a, b = b, a
            t = TRUE if a is b else mk('ceq', a, b)
            st.env[inst.id] = t if short.endswith('==') else (FALSE if a is b else mk('not', t))
            return True
        if short in ('std::set::operator=', 'std::vector::operator=', 'std::set::set', 'std::vector::vector') and len(args) >= 2:
            eng.store(st, args[0], self.content(eng, st, args[1]), 8)
            if inst.ty == 'ptr':
                st.env[inst.id] = args[0]
            return True
        if short in ('std::set::~set', 'std::vector::~vector'):
            return True
        return None

    def ispp(self, eng, o):
        if o[0] == 'v':
            return eng.fn.vty.get(o[1]) == 'ptr'
        return o[0] in ('null', 'g', 'fn', 'cgep')

    def ret(self, eng, st, inst, val):
        super().ret(eng, st, inst, val)
        self.finals.append((st.copy(), eng.trace(st)))


CUT = ('std::set::set', 'std::set::~set', 'std::set::operator=', 'std::vector::operator=', 'std::vector::vector', 'std::vector::~vector', 'std::operator!=',
       'std::operator==', 'dd::ComplexTable::Entry::approximatelyEquals', 'dd::ToffoliTable::hash', 'dd::DensityNoiseTable::hash')


def leafs(di, tname):
    """[(offset, size, kind)] kind: node / number / fp / int"""
    full = {'v': 'dd::vNode', 'm': 'dd::mNode', 'd': 'dd::dNode'}[tname[0]]
    rec = di.record(('CachedEdge<%s>' if 'Cached' in tname else 'Edge<%s>') % full)
    return flat(di, rec)


def flat(di, k, base=0):
    out = []
    for n, o, t in di.members(k):
        t = di.strip(t)
        p = di.get(t)
        if p['kind'] == 'DICompositeType' and 'elements' in p and di.members(t):
            out += flat(di, t, base + o)
        else:
            nm = di.tname(t)
            kind = 'node' if nm.endswith('Node*') else ('number' if nm.endswith('*') else ('fp' if nm == 'double' else 'int'))
            out.append((base + o, di.size(t), kind))
    return out


def slots(st, t):
    """bases inside table t that the path wrote, with how far"""
    out = set()
    for (b, o) in st.mem:
        if rooted(b, t):
            out.add(b)
    for b in st.rng:
        if rooted(b, t):
            out.add(b)
    return out


def rooted(b, t):
    if b.k != 'idx':
        return False
    x = pbase(b.a[0])
    while x.k == 'idx':
        x = pbase(x.a[0])
    if x is t:
        return True
    return x.k == 'load' and pbase(x.a[0]) is t


def slot_of(x, t):
    """x is the value load(S+off): -> (S, off)"""
    if x.k != 'load':
        return None
    b, o = as_ptr(x.a[0]).a
    return (b, o) if rooted(b, t) else None


def finals(ctx, m, name):
    cl = MemoClient()
    eng = Engine(m.fn(name), cl, m.statics).run()
    ctx.ran(eng)
    return eng, cl


def entry_map(ctx, m, name, tag, t, operands, result):
    """insert: every leaf of operands and result -> offset in the entry"""
    eng, cl = finals(ctx, m, 'c_insert_' + name)
    tag = 'insert into ' + name
    res = None
    cnt = None
    for st, tr in cl.finals:
        ss = slots(st, t)
        ss = {s for s in ss if not any(x is not s and pbase(x.a[0]) is s for x in ss)}
        if not ctx.ob(tag + ': stores one entry', len(ss) == 1, 'a path stores into %d entries' % len(ss), tag, tr):
            return None, None
        S = ss.pop()
        size = S.a[1]
        mp = {}
        written = {}
        for o in range(0, size):
            v = None
            if o % 8 == 0:
                v = eng.load(st, ptr(S, o), 8)
                if v.k == 'load' and pbase(v.a[0]) is S:
                    v = None
            if v is not None:
                written[o] = v
            for sz in (1, 2, 4):
                v = eng.load(st, ptr(S, o), sz)
                if not (v.k == 'load' and pbase(v.a[0]) is S) and v.k not in ('part', 'mix'):
                    written[(o, sz)] = v
        for key, val in operands + result:
            hit = [o if not isinstance(o, tuple) else o[0] for o, v in written.items() if v is val]
            ctx.ob('%s: %s is stored' % (tag, key), len(hit) >= 1, 'the entry does not hold %s afterwards' % key, tag, tr)
            mp[key] = hit[0] if hit else None
        if res is not None and res != mp:
            ctx.ob('%s: one layout' % tag, False, 'paths store the operands at different places', tag, tr)
        res = mp
        incs = {o for (b, o), (sz, v) in st.mem.items() if b is t and sz == 8 and t_add(64, v, mk('load', ptr(t, o), None), -1) is ci(64, 1)}
        cnt = incs if cnt is None else cnt & incs
    return res, cnt


def key_fact(eng, st, kind, a, b):
    """is stored component a known to equal queried component b?"""
    if a is None:
        return False
    if eng.decide(st, mk('pcmp', 'eq', a, b)) is True if kind in ('node', 'number') else False:
        return True
    if kind in ('number', 'fp'):
        x, y = (a, b) if a.n <= b.n else (b, a)
        if st.facts.get(('b', mk('approx', x, y))) is True:
            return True
        if kind == 'fp' and eng.decide(st, mk('fcmp', 'oeq', a, b)) is True:
            return True
    if kind == 'cont':
        x, y = (a, b) if a.n <= b.n else (b, a)
        return st.facts.get(('b', mk('ceq', x, y))) is True
    if kind == 'int':
        for w in (8, 16, 32, 64):
            if eng.decide(st, mk('icmp', 'eq', a, b, w)) is True:
                return True
    return False


def byte_value(t, env, w=64):
    """the value (modulo 2^64, unsigned in its width) a term takes when the bytes in env are known; None: it depends on something else"""
    if t in env:
        return env[t]
    k, a = t.k, t.a
    if k == 'i':
        return a[1] & ((1 << a[0]) - 1)
    if k == 'lin':
        r = a[2]
        for x, c in a[1]:
            v = byte_value(x, env)
            if v is None:
                return None
            r += c * v
        return r & ((1 << a[0]) - 1)
    if k in ('iand', 'ior', 'ixor', 'ilshr', 'ishl'):
        x, y = byte_value(a[1], env), byte_value(a[2], env)
        if x is None or y is None:
            return None
        r = {'iand': x & y, 'ior': x | y, 'ixor': x ^ y, 'ilshr': x >> min(y, 64), 'ishl': x << min(y, 64)}[k]
        return r & ((1 << a[0]) - 1)
    if k == 'zext':
        v = byte_value(a[2], env)
        return None if v is None else v & ((1 << a[1]) - 1)
    if k == 'trunc':
        v = byte_value(a[2], env)
        return None if v is None else v & ((1 << a[0]) - 1)
    if k == 'sext':
        v = byte_value(a[2], env)
        return None if v is None else wrap(v, a[1]) & ((1 << a[0]) - 1)
    if k == 'icmp':
        x, y = byte_value(a[1], env), byte_value(a[2], env)
        if x is None or y is None or a[0] not in ('eq', 'ne'):
            return None
        return int((x == y) == (a[0] == 'eq'))
    if k == 'not':
        v = byte_value(a[0], env)
        return None if v is None else 1 - v
    return None


def excluded(facts, env):
    """is the valuation of the bytes impossible under what the path knows?"""
    for key, val in facts.items():
        if key[0] not in ('r', 'b') or not any(x in leaves(key[1]) for x in env):
            continue
        v = byte_value(key[1], env)
        if v is None:
            continue
        if key[0] == 'b':
            if bool(v) != bool(val):
                return True
            continue
        slo, shi, ulo, uhi, ne = val
        wd = key[1].a[0] if key[1].k in ('lin', 'iand', 'ior', 'ixor', 'trunc', 'zext', 'sext') else 8
        sv = wrap(v, wd)
        if not (slo <= sv <= shi) or sv in ne:
            return True
    return False


def marks_stored(ctx, tag, eng, finals_, t, node, off):
    """where the entry keeps the marks of the operand's node, and as which function of them: [(offset, size, term)]"""
    src = mk('load', ptr(node, off), None)
    out = None
    for st, tr in finals_:
        here = set()
        for (b, o), (sz, v) in st.mem.items():
            if rooted(b, t) and src in leaves(v):
                tab = {}
                for x in range(256):
                    y = byte_value(v, {src: x})
                    if y is None or tab.setdefault(y, x & 7) != x & 7:
                        tab = None
                        break
                if tab:
                    here.add((o, sz, v))
        out = here if out is None else out & here
    return [(o, sz, v, src) for o, sz, v in out or ()]


def check_marks(ctx, m, name, operands, off):
    """results for nodes of density matrices are kept together with the marks the nodes have at that time"""
    ei, ci_ = finals(ctx, m, 'c_insert_' + name)
    el, cl = finals(ctx, m, 'c_lookup_' + name)
    for what, ain, alk in operands:
        stored = marks_stored(ctx, name, ei, ci_.finals, mk('arg', 0), mk('load', ptr(mk('arg', ain), 0), None), off)
        if not ctx.ob('insert into %s: the marks of the %s are stored' % (name, what), stored, 'the entry does not keep which view of the node the result is for', 'insert into ' + name):
            continue
        req = mk('load', ptr(mk('load', ptr(mk('arg', alk), 0), None), off), None)
        hits = 0
        for st, tr in cl.finals:
            top = el.load(st, ptr(mk('arg', 0), 0), 8)
            s = slot_of(top, mk('arg', 1))
            if s is None:
                continue
            hits += 1
            ok = False
            for o, sz, v, src in stored:
                at = mk('load', ptr(s[0], o), None)
                cls = {byte_value(v, {src: x}): x & 7 for x in range(256)}
                ok = ok or all(x & 7 == want or excluded(st.facts, {req: x, at: y}) for y, want in cls.items() for x in range(256))
            ctx.ob('lookup in %s: the marks of the %s are compared' % (name, what), ok,
                   'a result is returned although the node may have other marks than when it was stored (it stands for another matrix then)', 'lookup in ' + name, tr)
        ctx.require('%s hits for the marks' % name, hits, 1)


def check_lookup(ctx, m, name, t, o, mp, operands, result, kinds, flag=None):
    """operands: [(key, value in lookup)], result: [(key, offset in result)]"""
    eng, cl = finals(ctx, m, 'c_lookup_' + name)
    tag = 'lookup in ' + name
    hits = 0
    for st, tr in cl.finals:
        top = eng.load(st, ptr(o, result[0][1]), 8)
        if top is NULL or top is ci(64, 0):
            continue
        hits += 1
        s = slot_of(top, t)
        if not ctx.ob('%s: answers come from an entry' % tag, s is not None, 'a non-empty answer is not read from the table: %s' % show(top), tag, tr):
            continue
        S = s[0]
        for key, off in result:
            sz = 8
            v = eng.load(st, ptr(o, off), sz)
            want = mp.get(key)
            ctx.ob('%s: %s of the answer' % (tag, key), want is not None and v is mk('load', ptr(S, want), None),
                   'the answer\'s %s is %s, not what was stored as such in the matching entry' % (key, show(v)), tag, tr)
        for key, val in operands:
            at = mp.get(key)
            stored = mk('load', ptr(S, at), None) if at is not None else None
            ctx.ob('%s: %s compared' % (tag, key), key_fact(eng, st, kinds[key], stored, val),
                   'a result is returned although the stored %s is not known to equal the requested one' % key, tag, tr)
        if flag:
            off, arg = flag
            f = None
            bit = mk('iand', 8, ci(8, 4), mk('load', ptr(top, off), None))
            f = flag_bit(eng, st, top, off)
            d = arg_truth(eng, st, arg)
            ctx.ob('%s: density kind compared' % tag, f is not None and d is not None and f == d,
                   'a result is returned although its density-matrix flag is not known to match the request', tag, tr)
        # lookups do not alter entries
    for ev, eff, facts, mem, val, tr in cl.rets:
        bad = [e for e in eff if e[0] == 'st' and rooted(pbase(e[1]), t)]
        ctx.ob('%s: does not alter entries' % tag, not bad, 'a lookup writes an entry: %s' % bad[:2], tag, tr)
    ctx.require(tag + ' hit paths', hits, 1)


def flag_bit(eng, st, node, off):
    for key, v in st.facts.items():
        if key[0] == 'r' and any(x.k == 'load' and as_ptr(x.a[0]) is ptr(node, off) for x in leaves(key[1])):
            if v[0] == v[1] == 0:
                return False
            if v[0] == v[1] or 0 in v[4] or v[2] > 0:
                return True
        if key[0] == 'b' and any(x.k == 'load' and as_ptr(x.a[0]) is ptr(node, off) for x in leaves(key[1])):
            return v
    return None


def arg_truth(eng, st, arg):
    for key, v in st.facts.items():
        if key[0] == 'b' and arg in leaves(key[1]):
            return v
        if key[0] == 'r' and arg in leaves(key[1]) and v[0] == v[1]:
            return v[0] != 0
    return None


def isnull(v):
    return v is NULL or v is ci(64, 0)


def check_clear(ctx, m, name, t, off_p, cnt, size):
    eng, cl = finals(ctx, m, 'c_clear_' + name)
    tag = 'clear of ' + name
    fn = eng.fn
    covs = {h: traversal(eng, cl, h) for h in cl.iters}

    def covers(h, seen=()):
        """loop h empties the entries of a whole range: -> range root or None"""
        c = covs.get(h)
        if c is None:
            return None
        for (new, eff, facts, mem), st in zip(cl.iters[h], cl.iter_states[h]):
            bases = {c.elem} if c.stride is not None else {b for b in list(st.rng) + [k[0] for k in st.mem] if b.k == 'idx' and b.a[2] is c.elem}
            if not any(isnull(eng.load(st, ptr(b, off_p - (b.a[1] if c.down else 0)), 8)) for b in bases):
                return None
        return c
    good = {h for h in covs if covers(h)}
    # nested: an outer loop whose every iteration runs an inner clearing loop over the outer element
    outer = {}
    for h in covs:
        c = covs[h]
        inner = [g for g in good if g != h and g in fn.loops[h]]
        if c is None or not inner:
            continue
        for g in inner:
            cg = covs[g]
            if c.stride is not None and cg.stride is not None and pbase(cg.base) is c.elem and pbase(cg.end) is c.elem and poff(cg.end) - poff(cg.base) == c.stride and poff(cg.base) == 0:
                outer[h] = c
    for (ev, eff, facts, mem, val, tr), (fin, _) in zip(cl.rets, cl.finals):
        st = mkstate(facts)
        zero = any(eng.decide(st, mk('icmp', 'eq', mk('load', ptr(t, o), None), ci(64, 0), 64)) is True for o in cnt or ())
        done = False
        for (l, n, sb, so, ep) in fin.rng.get(t, ()):
            if size and sb is None and so == 0 and l == 0 and n >= size:
                done = True
        for e in ev:
            if e[0] != 'loop':
                continue
            h = e[1]
            c = outer.get(h) or (covs[h] if h in good and not any(g in outer and h in fn.loops[g] for g in outer) else None)
            if c is None:
                continue
            if c.stride is not None:
                b, en = as_ptr(c.base), as_ptr(c.end)
                if b.a[0] is t and en.a[0] is t:
                    done = done or (en.a[1] - b.a[1] == size and b.a[1] == 0)
                elif b.a[0].k == 'load' and en.a[0].k == 'load' and b.a[1] == 0 and en.a[1] == 0:
                    x, y = as_ptr(b.a[0].a[0]), as_ptr(en.a[0].a[0])
                    done = done or (x.a[0] is t and y is ptr(t, x.a[1] + 8))
            elif c.count is not None and c.count.k == 'i':
                strides = {b.a[1] for s in cl.iter_states[h] for b in list(s.rng) + [k[0] for k in s.mem] if b.k == 'idx' and b.a[2] is c.elem}
                done = done or any(c.count.a[1] * s == size for s in strides)
        # clearing element by element with everything forgotten at once (vector::clear and resize etc.) is not recognised
        ctx.ob('%s: every entry is emptied unless none was stored' % tag, done or zero,
               'a path of clear() leaves entries that can still answer although something may have been stored', tag, tr)
        for o in cnt or ():
            c = mem.get((t, o))
            if c is not None and not done:
                old = mk('load', ptr(t, o), None)
                ctx.ob('%s: the number of stored results is reset only after emptying' % tag, zero, 'the count is reset although entries remain', tag, tr)
    ctx.require(tag + ' paths', len(cl.rets), 1)


def check(ctx):
    ctx.rule('Storing writes every component of every operand and of the result into one entry; a lookup answers non-null only with that entry\'s result and '
             'only on paths where every stored operand component is known to equal the requested one (identity, or the library\'s tolerance comparison '
             'for weights; plus the density flag); clearing nulls the result of every entry of the table unless the path knows nothing was stored since the last clearing.')
    di = ctx.di()
    names = list(BIN) + UN + ['toffoli', 'dnoise', 'stoch']
    cut = lambda s, d: s in CUT and not (s.startswith('std::operator') and not ('vector<' in d or 'set<' in d))
    members = {n: (o, t) for n, o, t in di.members(di.record('Package<'))}
    m = ctx.module(['c_%s_%s' % (a, n) for a in ('insert', 'lookup', 'clear') for n in names], cut)
    dl = di.layout('dNode')
    off_flags = dl['flags']

    def size_of(name):
        o, t = members[name]
        for n, o2, t2 in di.members(di.strip(t)):
            if n == 'table':
                return di.size(t2)
        big = max(((di.size(t2), o2) for n, o2, t2 in di.members(di.strip(t))), default=(0, 0))
        return big[0]
    for name in BIN:
        L, R, V = BIN[name].split()
        ins = lambda k, off: mk('load', ptr(mk('arg', k), off), None)
        ops, kinds, res = [], {}, []
        lops = []
        for nm, ty, ka, kb in (('left operand', L, 1, 2), ('right operand', R, 2, 3)):
            for j, (o, sz, kind) in enumerate(leafs(di, ty)):
                key = '%s %s' % (nm, ('node', 'real weight', 'imaginary weight')[j])
                ops.append((key, ins(ka, o)))
                lops.append((key, ins(kb, o)))
                kinds[key] = kind
        rl = leafs(di, V)
        res = [('result ' + ('node', 'real weight', 'imaginary weight')[j], ins(3, o)) for j, (o, sz, kind) in enumerate(rl)]
        lres = [('result ' + ('node', 'real weight', 'imaginary weight')[j], o) for j, (o, sz, kind) in enumerate(rl)]
        mp, cnt = entry_map(ctx, m, name, name, mk('arg', 0), ops, res)
        if mp is None:
            continue
        flag = (off_flags, mk('arg', 4)) if R == 'dEdge' else None
        check_lookup(ctx, m, name, mk('arg', 1), mk('arg', 0), mp, lops, lres, kinds, flag)
        if L == 'dEdge':
            check_marks(ctx, m, name, (('left operand', 1, 2), ('right operand', 2, 3)), off_flags)
        check_clear(ctx, m, name, mk('arg', 0), mp['result node'], cnt, size_of(name))
    for name in UN + ['dnoise']:
        ty = 'dEdge' if name == 'dnoise' else 'mEdge'
        ins = lambda k, off: mk('load', ptr(mk('arg', k), off), None)
        ops, lops, kinds = [], [], {}
        for j, (o, sz, kind) in enumerate(leafs(di, ty)):
            key = 'operand ' + ('node', 'real weight', 'imaginary weight')[j]
            ops.append((key, ins(1, o)))
            lops.append((key, ins(2, o)))
            kinds[key] = kind
        if name == 'dnoise':
            ops.append(('qubits', ins(3, 0)))
            lops.append(('qubits', ins(3, 0)))
            kinds['qubits'] = 'cont'
        rl = leafs(di, ty)
        res = [('result ' + ('node', 'real weight', 'imaginary weight')[j], ins(2, o)) for j, (o, sz, kind) in enumerate(rl)]
        lres = [('result ' + ('node', 'real weight', 'imaginary weight')[j], o) for j, (o, sz, kind) in enumerate(rl)]
        mp, cnt = entry_map(ctx, m, name, name, mk('arg', 0), ops, res)
        if mp is None:
            continue
        check_lookup(ctx, m, name, mk('arg', 1), mk('arg', 0), mp, lops, lres, kinds)
        if ty == 'dEdge':
            check_marks(ctx, m, name, (('operand', 1, 2),), off_flags)
        check_clear(ctx, m, name, mk('arg', 0), mp['result node'], cnt, size_of({'dnoise': 'densityNoise'}.get(name, name)))
    # Toffoli gates
    ops = [('qubit count', mk('arg', 1)), ('controls', mk('load', ptr(mk('arg', 2), 0), None)), ('target', mk('arg', 3))]
    lops = [('qubit count', mk('arg', 2)), ('controls', mk('load', ptr(mk('arg', 3), 0), None)), ('target', mk('arg', 4))]
    kinds = {'qubit count': 'int', 'controls': 'cont', 'target': 'int'}
    rl = leafs(di, 'mEdge')
    res = [('result ' + ('node', 'real weight', 'imaginary weight')[j], mk('load', ptr(mk('arg', 4), o), None)) for j, (o, sz, kind) in enumerate(rl)]
    lres = [('result ' + ('node', 'real weight', 'imaginary weight')[j], o) for j, (o, sz, kind) in enumerate(rl)]
    mp, cnt = entry_map(ctx, m, 'toffoli', 'toffoli', mk('arg', 0), ops, res)
    if mp is not None:
        check_lookup(ctx, m, 'toffoli', mk('arg', 1), mk('arg', 0), mp, lops, lres, kinds)
        check_clear(ctx, m, 'toffoli', mk('arg', 0), mp['result node'], cnt, None)
    # operations by (kind, qubit): the slot itself is the key
    res = [('result ' + ('node', 'real weight', 'imaginary weight')[j], mk('load', ptr(mk('arg', 3), o), None)) for j, (o, sz, kind) in enumerate(rl)]
    positional(ctx, m, di, res, lres)


def subst(t, f, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        if any(isinstance(x, (T, tuple)) for x in t.a):
            def go(x):
                if isinstance(x, T):
                    return subst(x, f, memo)
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                return x
            r = mk(t.k, *[go(x) for x in t.a])
        else:
            r = t
    memo[t] = r
    return r


def positional(ctx, m, di, res, lres):
    mp, cnt = entry_map(ctx, m, 'stoch', 'stoch', mk('arg', 0), [], res)
    eng, cl = finals(ctx, m, 'c_insert_stoch')
    S0 = None
    for st, tr in cl.finals:
        S0 = next(iter({s for s in slots(st, mk('arg', 0)) if True}), None)
    if mp is None or S0 is None:
        return
    keyed = {mk('arg', 1), mk('arg', 2)} <= leaves(S0)
    ctx.ob('insert into stoch: the entry is chosen by operation kind and qubit', keyed, 'the entry does not depend on both the kind and the qubit', 'stoch')
    eng, cl = finals(ctx, m, 'c_lookup_stoch')
    ren = {mk('arg', 0): mk('arg', 1), mk('arg', 1): mk('arg', 2), mk('arg', 2): mk('arg', 3)}
    want = subst(S0, lambda x: ren.get(x))
    n = 0
    for st, tr in cl.finals:
        top = eng.load(st, ptr(mk('arg', 0), 0), 8)
        if top is NULL or top is ci(64, 0):
            continue
        n += 1
        for key, off in lres:
            v = eng.load(st, ptr(mk('arg', 0), off), 8)
            ctx.ob('lookup in stoch: %s of the answer' % key, v is mk('load', ptr(want, mp[key]), None),
                   'the answer\'s %s is %s, not what was stored for the same kind and qubit' % (key, show(v)), 'stoch', tr)
    ctx.require('stoch hit paths', n, 1)
    check_clear(ctx, m, 'stoch', mk('arg', 0), mp['result node'] % 24, cnt, None)
