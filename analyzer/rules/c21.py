"""C21: requests a package cannot hold are refused, before anything is built, and nothing else is."""
from common import *
import llvmir
from build import *
from linear import *
from rules.c31 import ImportClient
from loops import traversal
import denote

class ErrClient(ImportClient):
    def __init__(self, lib, rec, first=False):
        super().__init__(lib, rec)
        self.first = first      # follow every path to its first construction step only
        self.refusals = []      # (state, block)
        self.uses = []          # (state, what)

    def prune(self, eng, st, block):
        r = super().prune(eng, st, block)
        if not r:
            self.refusals.append((st.copy(), block))
        return r

    def loop_exit(self, eng, st, inst, cond, val, target):
        if self._doomed is None:
            super().prune(eng, st, 0)
        if target not in self._doomed:
            super().loop_exit(eng, st, inst, cond, val, target)

    def call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if full == self.rec or n in ('makeDDNode', 'makeIdent', 'kronecker2') or n == 'resize' and short.startswith('dd::') or self.first and n == 'lookup' and short.startswith('dd::ComplexNumbers'):
            self.uses.append((st.copy(), n if full != self.rec else 'the import', args, eng.trace(st)))
            if self.first:
                return []
        if n == 'kronecker2':
            t = mk('kron', inst.id)
            self.effect(st, ('kron', t))
            self.put_edge(eng, st, args[0], (t, mk('sc', t, 0), mk('sc', t, 1)))
            return True
        if n == 'resize':
            self.effect(st, ('resize', short))
            return True
        return super().call(eng, st, inst, short, full, args)

    def k_exactlyOne(self, eng, st, inst, short, full, args):
        st.env[inst.id] = eng.fresh(st, inst)
        return True


def doomed(ctx, m, eng, cl, nm):
    """refusals with the type thrown; ends of the library's own functions (allocation, length) are not refusals"""
    out = []
    for st, b in cl.refusals:
        ts = thrown(eng.fn, b)
        if ts:
            out.append((st, ts))
    return out


def thrown(fn, block):
    out, seen, work = set(), set(), [block]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        ins = fn.blocks[b].insts
        for i in ins:
            if i.op == 'call' and i.callee == '__cxa_throw':
                for o in i.ops:
                    s = repr(o)
                    if '_ZTI' in s:
                        out.add(s[s.index('_ZTI'):].split("'")[0].strip('")]'))
        work += getattr(fn.blocks[b], 'succs', [])
    return out


RT, INV = '_ZTISt13runtime_error', '_ZTISt16invalid_argument'


class Unit:
    """one function that refuses: reasons = [(what, exception, known to hold, known not to hold)], each of a state"""

    def __init__(self, ctx, m, lib, name, nm, rec=None, first=False, result=mk('arg', 0)):
        self.result = result
        self.ctx, self.m, self.lib, self.nm = ctx, m, lib, nm
        self.cl = ErrClient(lib, rec, first)
        self.cl.max_states = 40000
        self.eng = Engine(m.fn(name), self.cl, m.statics)
        self.eng.run()
        ctx.ran(self.eng)

    def judge(self, reasons, least=1):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        refs = doomed(ctx, self.m, eng, cl, nm)
        ctx.require('refusals of ' + nm, len(refs), 0)
        ctx.require('uses of ' + nm, len(cl.uses), least)
        for st, ts in refs:
            why = [r for r in reasons if r[2](st)]
            ctx.ob('%s: only what cannot be done is refused' % nm, bool(why), 'a request that is not known to be out of bounds is refused', nm, eng.trace(st))
            if why:
                ctx.ob('%s: the exception is of the right type' % nm, any(ts == {r[1]} for r in why), 'thrown: %s' % sorted(ts), nm, eng.trace(st))
            eff = [e for e in st.c[1] if not (e[0] == 'st' and pbase(e[1]) is self.result)] + [e for e in st.c[0]
                   if e[0] == 'loop' and any(x[0] != 'st' or pbase(x[1]) is not self.result for x in e[2])]
            eff = [e for e in eff if e[0] != 'loop' or e[2]]
            ctx.ob('%s: a refusal comes before anything is built or changed' % nm, not eff, 'before the refusal: %s' % sorted({e[0] for e in eff}), nm, eng.trace(st))
        for st, what, args, tr in cl.uses:
            for r in reasons:
                ok = r[3](st, args) if r[3].__code__.co_argcount == 2 else r[3](st)
                ctx.ob('%s: refused when %s' % (nm, r[0]), ok, 'at %s it is not known that not %s' % (what, r[0]), nm, tr)


def check(ctx):
    roots = ['e_makeZeroState', 'e_makeBasisState_bool', 'e_makeBasisState_bs', 'e_makeZeroDensityOperator', 'e_makeGateDD', 'e_makeGateDD_nc', 'e_makeGateDD_1c',
             'e_makeTwoQubitGateDD', 'e_makeStateFromVector', 'e_makeDDFromMatrix', 'e_makeIdent', 'e_makeIdent1', 'e_kronecker_v', 'e_kronecker_m', 'e_pkg_resize']
    m0 = llvmir.Module(ctx.ir())
    recs = {}
    for r in ('e_makeStateFromVector', 'e_makeDDFromMatrix'):
        h = m0.heads(r)
        if len(h) != 1:
            raise AnalysisError('%d recursive functions reached from %s' % (len(h), r))
        recs[r] = m0.dname(h[0])
    base = cut('makeIdent', 'makeGateDD', 'makeTwoQubitGateDD', 'kronecker')

    def cutf(s, d):
        n = s.split('::')[-1]
        return base(s, d) or n == 'makeIdent' and s.startswith('dd::') or cutb(s, d)

    def cutb(s, d):
        n = s.split('::')[-1]
        return base(s, d) or s.startswith('dd::ComplexNumbers::') and n in ('getCached', 'returnToCache') or n == 'kronecker2' and s.startswith('dd::') or \
            n == 'resize' and s.startswith('dd::') and 'Package' not in s or n == 'exactlyOne' and s.startswith('dd::')
    m = ctx.module([r for r in roots if 'Ident' not in r], cutf)
    mi = ctx.module([r for r in roots if 'Ident' in r], cutb)
    lib = denote.Lib(ctx, m)
    off = package_field(ctx, 'nqubits')
    nq = {mk('load', ptr(mk('arg', 1), off), None): F(1)}
    arg = lambda k: mk('arg', k)

    def over(form, what, exc=RT, known=None, nqf=nq):
        return (what, exc, lambda st: at_most(st, sub({1: F(1)}, sub(form, nqf)), known), lambda st: at_most(st, sub(form, nqf), known))
    cap = 'more levels are asked for than the package has'
    short = 'fewer states are given than levels asked for'
    # -- states and gates on levels start..start+n-1
    for name, nm, n, s, lst in (('e_makeZeroState', 'makeZeroState', 2, 3, None), ('e_makeBasisState_bool', 'makeBasisState (bits)', 2, 4, 'bits'),
                                ('e_makeBasisState_bs', 'makeBasisState (kinds)', 2, 4, 4), ('e_makeZeroDensityOperator', 'makeZeroDensityOperator', 2, None, None),
                                ('e_makeGateDD', 'makeGateDD', 3, 6, None), ('e_makeGateDD_nc', 'makeGateDD without controls', 3, 5, None),
                                ('e_makeGateDD_1c', 'makeGateDD with one control', 3, 6, None), ('e_makeTwoQubitGateDD', 'makeTwoQubitGateDD', 3, 6, None)):
        u = Unit(ctx, m, lib, name, nm, None, 'Gate' in nm)
        top = rlin(arg(n))
        if s is not None:
            top = sub(top, {x: -c for x, c in rlin(arg(s)).items()})
        rs = [over(top, cap)]
        if lst is not None:
            v = arg(3)
            ld = lambda o: mk('ptrtoint', mk('load', ptr(v, o), None))
            if lst == 'bits':
                # first word, offset in it; last word, offset in it
                size = {ld(16): F(8), ld(0): F(-8), mk('load', ptr(v, 24), None): F(1)}
                alt = dict(size)
                alt[mk('load', ptr(v, 8), None)] = F(-1)
                r1, r2 = over(top, short, nqf=size), over(top, short, nqf=alt)
                rs.append((short, RT, lambda st: r1[2](st) or r2[2](st), lambda st: r1[3](st) or r2[3](st)))
            else:
                rs.append(over(top, short, nqf={ld(8): F(1, lst), ld(0): F(-1, lst)}))
        u.judge(rs)
    # -- identities
    for name, nm, hi in (('e_makeIdent', 'makeIdent', sub(rlin(arg(3)), {1: F(-1)})), ('e_makeIdent1', 'makeIdent from level 0', rlin(arg(2)))):
        u = Unit(ctx, mi, lib, name, nm)
        r = over(hi, cap)
        u.judge([r])
        for st, _ in u.cl.finals:
            # the table of identities is not touched beyond its end
            ok = r[3](st) or not [f for f in st.facts if 'idx' in repr(f)]
            lo = rlin(arg(2)) if name == 'e_makeIdent' else {}
            ok = ok or at_most(st, sub(sub(hi, lo), {}))
            ctx.ob('%s: only identities the package can hold are given' % nm, ok, 'an identity beyond the number of qubits is returned', nm, u.eng.trace(st))
    # -- Kronecker products
    for name, nm in (('e_kronecker_v', 'kronecker of vectors'), ('e_kronecker_m', 'kronecker of matrices')):
        u = Unit(ctx, m, lib, name, nm)
        voff = lib.voffs['dd::vNode' if name.endswith('_v') else 'dd::mNode']
        lv = [mk('load', ptr(mk('load', ptr(arg(k)), None), voff), None) for k in (2, 3)]
        top = {lv[0]: F(1), lv[1]: F(1), 1: F(2)}
        what, exc, yes, no = over(top, 'the factors together have ' + cap.replace('are asked for ', ''))

        def no2(st, no=no, u=u):
            z = mk('icmp', 'eq', arg(4), ci(8, 0), 8)
            inc = u.eng.decide(st, arg(4)) is False or u.eng.decide(st, z) is True
            nul = any(u.eng.decide(st, mk('pcmp', 'eq', mk('load', ptr(arg(k)), None), NULL)) is True for k in (2, 3))
            return no(st) or inc or nul
        u.judge([(what, exc, yes, no2)])
    # -- imports
    imports(ctx, m, lib, recs, nq, cap)
    # -- the package itself
    u = Unit(ctx, m, lib, 'e_pkg_resize', 'resize', result=None)
    u.judge([over(rlin(arg(1)), 'a package is to have more qubits than there are levels', INV, nqf={1: F(128)})])
    ctx.rule('On every path to a construction step (node, identity, product, import) the facts that hold bound the levels asked for by those the package has, and the operands by what is read of them; '
             'on every path to a throw the facts imply one of the stated reasons; the exception thrown is read off the code from there; nothing has been stored or built before.')
    ctx.assume.append('Numbers of levels fit their types, arrays are smaller than the address space.')




def package_field(ctx, name):
    lay = ctx.di().layout('Package')
    if name not in lay:
        raise AnalysisError('the package has no field ' + name)
    return lay[name]


def imports(ctx, m, lib, recs, nq, cap):
    v = mk('arg', 2)
    b, e = (mk('ptrtoint', mk('load', ptr(v, o), None)) for o in (0, 8))
    for name, nm, elem in (('e_makeStateFromVector', 'makeStateFromVector', 16), ('e_makeDDFromMatrix', 'makeDDFromMatrix', 24)):
        size = {e: F(1, elem), b: F(-1, elem)}

        def form(t):
            r = rlin(t)
            return r == size

        def known(t, form=form):
            # log2 of the number of entries
            if t.k in ('fptosi', 'fptoui'):
                return flog([x for x in t.a if isinstance(x, T)][-1], form)
            if t.k in ('cttz', 'fn_llvm.cttz.i64') and form(t.a[0]):
                return {K: F(1)}
            return None
        u = Unit(ctx, m, lib, name, nm, recs[name])

        def bits(st, form=form):
            """is the number of entries known to be (not) a power of two"""
            for f, val in st.facts.items():
                if f[0] != 'r':
                    continue
                t = f[1]
                if t.k == 'iand' and any(form(x) and rlin(y) == sub(rlin(x), {1: F(1)}) for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])) if isinstance(x, T) and isinstance(y, T)):
                    if val[0] == val[1] == 0:
                        return True
                    if 0 in val[4] or val[2] > 0:
                        return False
                while t.k in ('trunc', 'zext', 'sext'):
                    t = [x for x in t.a if isinstance(x, T)][-1]
                if t.k == 'fn_llvm.ctpop.i64' and form(t.a[-1]):
                    if val[3] <= 1:
                        return True
                    if val[2] > 1 or 1 in val[4]:
                        return False
            return None

        def use_power(st):
            return bits(st) is True
        rs = [('the number of entries is not a power of two', INV, lambda st: bits(st) is False, use_power)]
        cap_no = lambda st: at_most(st, sub({K: F(1)}, nq), known)
        cap_yes = lambda st: at_most(st, sub({1: F(1)}, sub({K: F(1)}, nq)), known)
        rs.append((cap, RT, cap_yes, cap_no))
        if elem == 24:
            rs.append(('a row does not have as many entries as there are rows', INV, lambda st: row_bad(st, size), lambda st: rows_checked(u, st, size)))
        u.judge(rs)


K = mk('sym', 'log2 of the number of entries')


def flog(t, form):
    """a floating-point expression as a linear form over K"""
    if t.k == 'f':
        return {1: F(t.a[0])} if t.a[0] else {}
    if t.k == 'fn_log2':
        x = t.a[0]
        if x.k in ('uitofp', 'sitofp') and form([y for y in x.a if isinstance(y, T)][-1]):
            return {K: F(1)}
        return None
    if t.k in ('fadd', 'fsub'):
        x, y = flog(t.a[0], form), flog(t.a[1], form)
        if x is None or y is None:
            return None
        return sub(x, y) if t.k == 'fsub' else sub(x, {k: -c for k, c in y.items()})
    return None


def row_size(base, off=0):
    b, e = (mk('ptrtoint', mk('load', ptr(base, off + o), None)) for o in (0, 8))
    return b, e


def row_form(r, size):
    """r = (number of entries of one row) - (number of rows), up to sign -> the row's address, or None"""
    for sg in (1, -1):
        d = sub({x: sg * c for x, c in r.items()}, {x: -c for x, c in size.items()})
        if len(d) == 2 and 1 not in d:
            (x, c), (y, k) = sorted(d.items(), key=lambda z: z[1])
            if (c, k) == (F(-1, 16), F(1, 16)) and x.k == y.k == 'ptrtoint' and x.a[0].k == y.a[0].k == 'load':
                p, q = as_ptr(x.a[0].a[0]), as_ptr(y.a[0].a[0])
                if p.a[0] is q.a[0] and q.a[1] == p.a[1] + 8:
                    return p
    return None


def row_facts(st, size, facts=None):
    """rows known to have as many entries as there are rows / known not to"""
    class S_:
        pass
    s = S_()
    s.facts = st.facts if facts is None else facts
    eq, ne = [], []
    _, e, n = bounds(s)
    for r in e:
        p = row_form(r, size)
        if p is not None:
            eq.append(p)
    for r in n:
        p = row_form(r, size)
        if p is not None:
            ne.append(p)
    return eq, ne


def row_bad(st, size):
    return bool(row_facts(st, size)[1])


def rows_checked(u, st, size):
    """some loop on the way visits every row and goes on only where its length is right"""
    v = mk('arg', 2)
    begin, end = mk('load', ptr(v), None), mk('load', ptr(v, 8), None)
    done = [x[1] for x in st.c[0] if x[0] == 'loop']
    for h in u.cl.iters:
        if h not in done:
            continue
        if unrolled(u, st, h, size, begin, end):
            return True
        cov = traversal(u.eng, u.cl, h)
        if cov is None:
            continue
        its = u.cl.iters[h]
        if cov.stride is not None:
            full = as_ptr(cov.base) is as_ptr(begin) and as_ptr(cov.end) is as_ptr(end) and cov.stride == 24
            at = lambda p: p.a[0] is cov.elem and p.a[1] == 0
        else:
            full = cov.count is not None and rlin(cov.count) == size
            at = lambda p: p.a[1] == 0 and p.a[0].k == 'idx' and p.a[0].a[1] == 24 and p.a[0].a[2] is cov.elem and as_ptr(p.a[0].a[0]) is as_ptr(begin)
        if full and its and all(any(at(p) for p in row_facts(None, size, it[2])[0]) for it in its):
            return True
    return False


def unrolled(u, st, h, size, begin, end):
    """the library's search over random-access iterators: k elements per round while k are left, then the rest one by one"""
    its = u.cl.iters[h]
    for pid, init in next(iter(u.cl.inits[h])):
        if as_ptr(init) is not as_ptr(begin) or any(as_ptr(dict(i)[pid]) is not as_ptr(begin) for i in u.cl.inits[h]):
            continue
        phi = mk('phi', h, pid)
        news = {as_ptr(it[0][pid]) for it in its}
        if len(news) != 1:
            continue
        new, = news
        if new.a[0] is not phi or new.a[1] <= 0 or new.a[1] % 24:
            continue
        k = new.a[1] // 24

        def seen(facts):
            return {p.a[1] // 24 for p in row_facts(None, size, facts)[0] if p.a[0] is phi and p.a[1] % 24 == 0}
        if not all(set(range(k)) <= seen(it[2]) for it in its):
            continue
        # rounds: number of elements divided by k
        counted = False
        for cid, ci_ in next(iter(u.cl.inits[h])):
            c = mk('phi', h, cid)
            r = {it[0][cid] for it in its}
            if r == {t_add(64, c, ci(64, 1), -1)} and ci_.k in ('iashr', 'ilshr', 'isdiv', 'iudiv') and rlin(ci_.a[1]) == size \
                    and (ci_.a[2].a[1] == k if ci_.k.endswith('div') else 1 << ci_.a[2].a[1] == k):
                counted = True
        if not counted:
            continue
        # an element that is visited is not the end of the array
        if any(p.a[0] is phi and u.eng.decide(st, mk('pcmp', 'eq', aspval(p), end)) is True for p in row_facts(st, size)[1]):
            return True
        have = seen(st.facts)
        le, eq, ne = bounds(st)
        left = {mk('ptrtoint', end): F(1, 24), mk('ptrtoint', phi): F(-1, 24)}
        for n in range(1, k):
            if any(sub(left, {1: F(n)}) in (e, {x: -c for x, c in e.items()}) for e in eq):
                return set(range(n)) <= have
        return all(any(sub(left, {1: F(n)}) in (e, {x: -c for x, c in e.items()}) for e in ne) for n in range(1, k)) or \
            any(left in (e, {x: -c for x, c in e.items()}) for e in eq)
    return False
