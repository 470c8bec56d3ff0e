"""C22: a diagram written out in binary form, read back in, or transferred is rebuilt node by node."""
from common import *
import llvmir
from build import *
from rules.c21 import package_field
import denote

# left as calls; algorithms, arrays, pairs and iterators of arrays are followed
STD = ('std::basic_', 'std::istream', 'std::ostream', 'std::ios', 'std::unordered_', 'std::map::', 'std::set::', 'std::multi', 'std::_Rb_tree', 'std::stack', 'std::deque', 'std::queue', 'std::list',
       'std::regex', 'std::match_results', 'std::sub_match', 'std::getline', 'std::stoi', 'std::stol', 'std::stod', 'std::to_string', 'std::allocator', 'std::runtime_error', 'std::invalid_argument',
       'std::logic_error', 'std::exception', 'std::out_of_range', 'std::set', 'std::flush', 'std::endl', 'std::operator<<', 'std::operator>>', 'std::operator+', 'std::operator""', 'std::string', 'std::__cxx11',
       'std::locale', 'std::fixed', 'std::hex', 'std::dec', 'std::ws', 'std::_Deque', 'std::_Hashtable', 'std::hash')
NUM = ('lookup', 'getCached', 'getTemporary', 'returnToCache', 'mul', 'val', 'approximatelyZero', 'approximatelyOne')
BINARY = ci(1, 1)


def keep_out(rec):
    def cut(s, d):
        if rec is not None and d == rec:
            return True
        n = s.split('::')[-1]
        if s.startswith('dd::'):
            return n in ('makeDDNode', 'toString') or n in NUM and (not n.startswith('approximately') or s.startswith('dd::Complex::'))
        return s.startswith(STD) or '__detail' in s or s.startswith('std::__throw')
    return cut


def gone(p):
    """loads through bases only known inside the loop"""
    return any(x.k == 'phi' for x in leaves(p))


class StreamClient(BuildClient):
    """streams, maps and stacks of the standard library by their documented behaviour"""

    def __init__(self, lib, rec=None):
        super().__init__(lib)
        self.rec = rec

    def widen_heap(self, eng, st, h):
        eng.havoc_heap(st, ('loop', h), lambda b: b is mk('arg', 0) and False)

    def cell(self, eng, st, addr, off):
        return aspval(ptr(as_ptr(addr), off))

    def token(self, st):
        """the read after which the stream is looked at"""
        last = None
        for e in st.c[1]:
            if e[0] in ('rd', 'loop?'):
                last = e
        return mk('after', last[1]) if last else mk('after', 'nothing')

    def call(self, eng, st, inst, short, full, args):
        n = short.split('::')[-1]
        if self.rec is not None and full == self.rec:
            return self.recursive(eng, st, inst, args)
        if short.startswith('dd::'):
            return super().call(eng, st, inst, short, full, args)
        if short in ('std::istream::read', 'std::basic_istream::read'):
            return self.read(eng, st, inst, args)
        if short in ('std::ostream::write', 'std::basic_ostream::write'):
            return self.write(eng, st, inst, args)
        if short.startswith(('std::basic_ios::', 'std::istream::', 'std::basic_istream::', 'std::ios_base::')):
            return self.state_of(eng, st, inst, n, args)
        if short.startswith(('std::unordered_map::', 'std::map::', 'std::unordered_set::', 'std::set::')):
            return self.table(eng, st, inst, short, n, full, args)
        if '__detail' in short and ('_iterator' in short or 'operator' in short) or short.startswith(('std::_Rb_tree_iterator', 'std::operator')) and '_iterator' in full:
            return self.iterator(eng, st, inst, n, args)
        if short.startswith('std::stack::'):
            return self.stack(eng, st, inst, n, full, args)
        return None

    # -- streams
    def read(self, eng, st, inst, args):
        if args[2].k != 'i':
            raise AnalysisError('a read of %s bytes' % show(args[2]))
        size = args[2].a[1]
        off = sum(e[2] for e in st.c[1] if e[0] == 'rd')
        where = 'rec' if st.it and any(k < 0 for _, k in st.it) else 'hdr'
        t = mk('rd', where, off, size)
        self.effect(st, ('rd', t, size))
        a = as_ptr(args[1])
        for d in range(0, size, 8):
            k = min(8, size - d)
            eng.store(st, aspval(ptr(a, d)), mk('rd', where, off + d, k), k)
        if inst.ty != 'void':
            st.env[inst.id] = args[0]
        return True

    def write(self, eng, st, inst, args):
        if args[2].k != 'i':
            raise AnalysisError('a write of %s bytes' % show(args[2]))
        a = as_ptr(args[1])
        size = args[2].a[1]
        for d in range(0, size, 8):
            k = min(8, size - d)
            self.effect(st, ('wr', k, eng.load(st, aspval(ptr(a, d)), k, '?')))
        if inst.ty != 'void':
            st.env[inst.id] = args[0]
        return True

    def state_of(self, eng, st, inst, n, args):
        tok = self.token(st)
        ok = mk('good', tok)
        if n in ('operator bool', 'good'):
            st.env[inst.id] = ok
        elif n in ('operator!', 'fail'):
            st.env[inst.id] = mk('not', ok)
        elif n == 'bad':
            st.env[inst.id] = mk('bad', tok)
        elif n == 'eof':
            # at the end of the input: what was asked for last has not been there
            e = mk('eof', tok)
            out = []
            for s, v in eng.split(st, e):
                for s2 in (eng.assume(s, ok, False) if v else [s]):
                    s2.env[inst.id] = ci(1, 1 if v else 0)
                    out.append(s2)
            return out
        elif n == 'gcount':
            st.env[inst.id] = mk('gcount', tok)
        else:
            return None
        return True

    def assume(self, eng, st, atom, val):
        # a stream that is good now was good before: earlier failures stick
        if atom[0] == 'bool' and atom[1].k == 'good' and val:
            if st.facts.get(('b', mk('eof', atom[1].a[0]))):
                return False
        if atom[0] == 'peq' and val:
            return True
        return True

    # -- tables: the value stored for a key
    def key(self, eng, st, full, addr):
        return eng.load(st, addr, 8, '?')

    def pair(self, table, key):
        return mk('pair', aspval(as_ptr(table)), key)

    def table(self, eng, st, inst, short, n, full, args):
        is_set = short.startswith(('std::unordered_set::', 'std::set::'))
        if n in ('unordered_map', 'map', 'unordered_set', 'set'):
            self.effect(st, ('new', aspval(as_ptr(args[0]))))
            return True
        if n.startswith('~') or n in ('reserve', 'max_load_factor'):
            return True
        if n in ('end', 'cend'):
            st.env[inst.id] = mk('itend', aspval(as_ptr(args[0])))
            return True
        if n in ('find', 'count', 'contains', 'operator[]', 'at'):
            k = self.key(eng, st, full, args[1])
            p = self.pair(args[0], k)
            found = mk('found', p)
            if n == 'find':
                st.env[inst.id] = p
            elif n == 'count':
                out = []
                for s, v in eng.split(st, found):
                    s.env[inst.id] = ci(64, 1 if v else 0)
                    out.append(s)
                return out
            elif n == 'contains':
                st.env[inst.id] = found
            elif n == 'at':
                out = []
                for s, v in eng.split(st, found):
                    if v:
                        s.env[inst.id] = ptr(p, 8)
                        out.append(s)
                return out
            else:
                st.env[inst.id] = ptr(p, 8)
            return True
        if is_set and n in ('insert', 'emplace'):
            k = self.key(eng, st, full, args[1])
            p = self.pair(args[0], k)
            out = []
            for s, v in eng.split(st, mk('found', p)):
                s.env[inst.id] = mk('agg', p, ci(8, 0 if v else 1))
                if not v:
                    self.effect(s, ('seen', k))
                    s.facts[('b', mk('found', p))] = True
                out.append(s)
            return out
        if n in ('emplace', 'try_emplace', 'insert_or_assign', 'insert'):
            if n == 'insert':
                k, v = eng.load(st, args[1], 8, '?'), eng.load(st, aspval(ptr(as_ptr(args[1]), 8)), 8, '?')
            else:
                k, v = self.key(eng, st, full, args[1]), eng.load(st, args[2], 8, '?')
            p = self.pair(args[0], k)
            out = []
            for s, old in ([(st, False)] if n == 'insert_or_assign' else eng.split(st, mk('found', p))):
                if not old:
                    eng.store(s, aspval(ptr(p, 8)), v, 8)
                    self.effect(s, ('st', aspval(ptr(p, 8)), v, 8))
                s.env[inst.id] = mk('agg', p, ci(8, 0 if old else 1))
                out.append(s)
            return out
        raise AnalysisError('no contract for %s' % full[:120])

    def iterator(self, eng, st, inst, n, args):
        if n in ('operator->', 'operator*'):
            st.env[inst.id] = eng.load(st, args[0], 8, 'ptr')
            return True
        if n in ('operator==', 'operator!='):
            a, b = (eng.load(st, x, 8, 'ptr') for x in args[:2])
            for x, y in ((a, b), (b, a)):
                if x.k == 'pair' and y.k == 'itend' and y.a[0] is x.a[0]:
                    f = mk('found', x)
                    st.env[inst.id] = mk('not', f) if n == 'operator==' else f
                    return True
            raise AnalysisError('comparison of the iterators %s and %s' % (show(a)[:60], show(b)[:60]))
        if n in ('_Node_iterator', '_Node_const_iterator', '_Node_iterator_base'):
            eng.store(st, args[0], eng.load(st, args[1], 8, 'ptr') if len(args) > 1 else UNDEF, 8)
            return True
        return None

    # -- stacks: what comes out has been put in, but it is not known when
    def stack(self, eng, st, inst, n, full, args):
        if n in ('top', 'empty', 'size'):
            t = mk(n, inst.id)
            eng.forget(st, t)
            for k in [k for k in st.mem if t in leaves(k[0])]:
                del st.mem[k]
            st.env[inst.id] = t
        elif n not in ('push', 'emplace', 'pop', 'stack', 'swap') and not n.startswith('~'):
            raise AnalysisError('no contract for %s' % full[:120])
        return True

    def keep_fact(self, eng, st, key, live):
        """what is known of the stack, of small weights and of other nodes that were met does not matter here"""
        if key[0] == 'b':
            t = key[1]
            if t.k in ('az', 'ao', 'empty') or t.k == 'found' and self.follow and not self.node_of(t.a[0].a[1]):
                return False
        if key[0] == 'peq' and self.follow and not any(x.k in ('glob', 'null') for x in key[1:]):
            return False
        return True

    follow = False      # nodes are taken from a stack

    def node_of(self, p):
        """the node of an edge that was taken from the stack (not one of its successors)"""
        b = pbase(p.a[0]) if p.k == 'load' else None
        return b is not None and (b.k != 'load' or pbase(b.a[0]).k == 'top')

    # -- numbers: the value of scratch numbers is kept in their value cells
    def vals(self, eng, st, w):
        return tuple(self.val(eng, st, x) for x in w)

    def val(self, eng, st, x):
        if x.k == 'sc':
            return eng.load(st, aspval(ptr(x, self.lib.voff)), 8, 'double')
        if x is self.lib.zero:
            return cf(0.0)
        if x is self.lib.one:
            return cf(1.0)
        if x.k == 'tn':
            return x.a[0]
        return mk('val', x)

    def num(self, eng, st, addr):
        a = as_ptr(addr)
        return tuple(eng.load(st, aspval(ptr(a, o)), 8, 'ptr') for o in (0, 8))

    def k_getCached(self, eng, st, inst, short, full, args):
        ps = params(full)
        if len(ps) == 2:
            v = [eng.load(st, a, 8, 'double') if p.endswith('&') else a for p, a in zip(ps, args[1:3])]
        elif len(ps) == 1 and ('ComplexValue' in ps[0] or 'std::complex' in ps[0]):
            v = [eng.load(st, aspval(ptr(as_ptr(args[1]), o)), 8, 'double') for o in (0, 8)]
        elif not ps or ps == ['']:
            v = [UNDEF, UNDEF]
        else:
            raise AnalysisError('no contract for ' + full[:120])
        t = mk('scr', inst.id)
        sc = mk('sc', t, 0), mk('sc', t, 1)
        for x, y in zip(sc, v):
            eng.store(st, aspval(ptr(x, self.lib.voff)), self.canon(y), 8)
        self.effect(st, ('get', t))
        st.env[inst.id] = mk('agg', *sc)
        return True

    k_getTemporary = k_getCached

    def canon(self, v):
        """the value cell of a number, read directly or with its sign"""
        return v

    def k_returnToCache(self, eng, st, inst, short, full, args):
        self.effect(st, ('put', self.num(eng, st, args[1])))
        return True

    def k_mul(self, eng, st, inst, short, full, args):
        d = self.num(eng, st, args[0])
        x, y = (self.vals(eng, st, self.num(eng, st, a)) for a in args[1:3])
        x, y = sorted((x, y), key=lambda z: (z[0].n, z[1].n))
        for j, c in enumerate(d):
            if c.k != 'sc':
                raise AnalysisError('a product is stored into %s' % show(c)[:80])
            eng.store(st, aspval(ptr(c, self.lib.voff)), mk('prod', j, *x, *y), 8)
        return True

    def k_lookup(self, eng, st, inst, short, full, args):
        ps = params(full)
        if len(ps) == 1 and ps[0].replace('const', '').replace('&', '').strip() == 'dd::Complex':
            w = self.num(eng, st, args[1])
            if all(x in (self.lib.zero, self.lib.one) for x in w):
                st.env[inst.id] = mk('agg', *w)
            else:
                st.env[inst.id] = mk('agg', *[self.tn(self.val(eng, st, x)) for x in w])
            return True
        return super().k_lookup(eng, st, inst, short, full, args)

    def k_approximatelyZero(self, eng, st, inst, short, full, args):
        st.env[inst.id] = mk('az', *self.num(eng, st, args[0]))
        return True

    def k_approximatelyOne(self, eng, st, inst, short, full, args):
        st.env[inst.id] = mk('ao', *self.num(eng, st, args[0]))
        return True

    def k_val(self, eng, st, inst, short, full, args):
        st.env[inst.id] = self.val(eng, st, args[0])
        return True

    def k_toString(self, eng, st, inst, short, full, args):
        return None

    # -- the recursive writer
    def recursive(self, eng, st, inst, args):
        self.effect(st, ('rec', tuple(args), eng.load(st, args[1], 8, 'i64')))
        k = len([e for e in st.c[1] if e[0] == 'rec'])
        c = as_ptr(args[1]).a[0]
        eng.havoc_base(st, c, ('rec', k))
        for b in {x[0] for x in st.mem if x[0].k == 'pair'}:
            eng.havoc_base(st, b, ('rec', k))
        return True


class Unit:
    follow = False

    def __init__(self, ctx, m, lib, fn, args, rec=None):
        self.ctx, self.m, self.lib = ctx, m, lib
        self.cl = StreamClient(lib, rec)
        self.cl.follow = self.follow
        self.eng = Engine(m.fn(fn), self.cl, m.statics, args=args)
        self.eng.run()
        ctx.ran(self.eng)

    def is_term(self, st, p):
        if p.k == 'glob' and 'terminal' in p.a[0] or p is NULL:
            return True
        got = [self.eng.decide(st, mk('pcmp', 'eq', p, t)) for t in self.terms]
        return True if True in got else False if False in got else None

    def zero_edge(self, e):
        t, r, i = e
        return t in self.terms and r is self.lib.zero and i is self.lib.zero

    def carried(self, h, x):
        """what the loop carries in x: [(state at the end of an iteration, value)]"""
        out = []
        for st, (news, eff, facts, mem) in zip(self.cl.iter_states.get(h, ()), self.cl.iters.get(h, ())):
            if x.k == 'phi' and x.a[0] == h:
                out.append((st, news.get(x.a[1])))
            elif x.k == 'load' and x.a[1] == ('loop', h):
                a = as_ptr(x.a[0])
                out.append((st, self.eng.load(st.copy(), aspval(a), 8, 'ptr')))
            else:
                return None
        return out

    def outer(self):
        """the loop in which the nodes are handled"""
        hs = [h for h in self.cl.iters if any(e[0] in ('node', 'wr') for it in self.cl.iters[h] for e in it[1])]
        return hs


def within(eng, st, v, pkg, nq):
    """0 <= v < number of qubits of the package"""
    def form(t):
        p, c = ilin(t)
        out = {}
        for x, k in p.items():
            y = 'n' if x.k == 'load' and as_ptr(x.a[0]) is ptr(pkg, nq) else 'v' if x is v else x
            out[y] = out.get(y, 0) + k
        return out, c
    low = eng.rget(st, v, 8)[0] >= 0
    for f, val in st.facts.items():
        if f[0] != 'lt':
            continue
        a, b = form(f[2]), form(f[3])
        if val and a[0] == {'v': 1} and b[0] == {'n': 1} and b[1] - a[1] <= 0 or not val and a[0] == {'n': 1} and b[0] == {'v': 1} and a[1] - b[1] <= -1:
            if low or f[1] == 'u':
                return True
    return False


class Reader(Unit):
    def __init__(self, ctx, m, lib, fn, nm, nt, nq):
        self.nt, self.nm, self.nq = nt, nm, nq
        self.terms = {t for k, t in lib.terms.items() if k == nt}
        super().__init__(ctx, m, lib, fn, [mk('arg', 0), mk('arg', 1), mk('arg', 2), BINARY])

    def known_good(self, st):
        """nothing read so far is missing"""
        return self.eng.decide(st, mk('good', self.cl.token(st))) is True

    def check(self):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        nodes = [n for n in cl.nodes if not any(k >= 0 for _, k in n[0].it)] or cl.nodes
        ctx.require('nodes made by ' + nm, len(cl.nodes), 1)
        layout = {}
        for st, t, where, tr in cl.nodes:
            ctx.ob('%s: a node is made of a complete record only' % nm, self.known_good(st), 'the stream is not known to be good after the last read before the node is made', where, tr)
            v = t.a[0]
            if not ctx.ob('%s: the level of a node is read from its record' % nm, v.k == 'rd' and v.a[0] == 'rec' and v.a[2] == 1, 'the level is %s' % show(v)[:100], where, tr):
                continue
            role = {v.a[1]: (v.a[2], 'level')}
            ctx.ob('%s: the level is one the package has' % nm, within(eng, st, v, mk('arg', 1), self.nq), 'level %s is not known to be from 0 to below the number of qubits' % show(v), where, tr)
            for j, e in enumerate(cl.children(t)):
                try:
                    self.successor(st, j, e, role)
                    ok, msg = True, ''
                except Bad as b:
                    ok, msg = False, str(b)
                ctx.ob('%s: a successor is the node that was read under its index, with the weight of the record' % nm, ok, msg, where, tr)
            for off, x in role.items():
                if layout.setdefault(off, x) != x:
                    ctx.ob('%s: one record layout' % nm, False, 'bytes %d: %s and %s' % (off, layout[off], x), where, tr)
        hs = self.outer()
        ctx.require('record loops of ' + nm, len(hs), 1)
        h = hs[0]
        key = None
        for st, (news, eff, facts, mem) in zip(cl.iter_states[h], cl.iters[h]):
            ns = [e[1] for e in eff if e[0] == 'node']
            if len(ns) > 1:
                ctx.ob('%s: one node per record' % nm, False, '%d nodes are made of a record' % len(ns), nm, eng.trace(st))
            regs = [e for e in eff if e[0] == 'st' and pbase(e[1]).k == 'pair' and poff(e[1]) == 8]
            rd = [e for e in eff if e[0] == 'rd']
            idx = mk('rd', 'rec', 0, 8)
            if not ns:
                none = eng.decide(st, mk('icmp', 'eq', idx, ci(64, -1), 64)) is True
                ctx.ob('%s: every record makes a node' % nm, none, 'a record with an index makes no node', nm, eng.trace(st))
                continue
            last = regs[-1] if regs else None
            ok = last is not None and last[2] is ns[-1] and pbase(last[1]).a[1].k == 'rd' and pbase(last[1]).a[1].a[0] == 'rec' and pbase(last[1]).a[1].a[2] == 8 and len(regs) == 1
            ctx.ob('%s: the node is kept under the index of its record' % nm, ok, 'stores into the table: %s' % [(show(pbase(e[1]))[:80], show(e[2])[:60]) for e in regs], nm, eng.trace(st))
            if ok:
                key = pbase(last[1]).a[1]
                layout[key.a[1]] = (8, 'index')
            total = sum(e[2] for e in rd)
            layout['size'] = total
        head = self.header(h, layout)
        self.result(h, layout)
        return layout

    def successor(self, st, j, e, role):
        eng = self.eng
        t, r, i = e
        # the index of this successor: the table entry used, or the index word known to be -1 or -2
        if t.k == 'load' and pbase(t.a[0]).k == 'pair' and poff(t.a[0]) == 8:
            p = pbase(t.a[0])
            x = p.a[1]
            if eng.decide(st, mk('found', p)) is not True:
                raise Bad('successor %d is taken from the table, but is not known to be there' % j)
            for k in (-1, -2):
                if eng.decide(st, mk('icmp', 'eq', x, ci(64, k), 64)) is not False:
                    raise Bad('the special index %d of successor %d is looked up' % (k, j))
        else:
            if t not in self.terms:
                raise Bad('successor %d is %s' % (j, show(t)[:100]))
            xs = [f[1] for f, v in st.facts.items() if f[0] == 'r' and f[1].k == 'rd' and f[1].a[0] == 'rec' and f[1].a[2] == 8 and v[0] == v[1] and v[0] in (-1, -2)]
            xs = [x for x in xs if x.a[1] == self.slot(j)] if self.slot(j) is not None else xs
            if len(xs) != 1 and self.slot(j) is None:
                raise Bad('it is not known which word is the index of successor %d' % j)
            if not xs:
                raise Bad('successor %d is a terminal although its index is not known to be -1 or -2' % j)
            x = xs[0]
            if eng.decide(st, mk('icmp', 'eq', x, ci(64, -2), 64)) is True:
                if not self.zero_edge(e):
                    raise Bad('successor %d without an entry has the weight (%s, %s)' % (j, show(r)[:50], show(i)[:50]))
                return
        if not (x.k == 'rd' and x.a[0] == 'rec' and x.a[2] == 8):
            raise Bad('the index of successor %d is %s' % (j, show(x)[:80]))
        if self.slot(j) is not None and x.a[1] != self.slot(j):
            raise Bad('the index of successor %d is the word at byte %d of the record' % (j, x.a[1]))
        role[x.a[1]] = (8, 'index of successor %d' % j)
        for w, part in ((r, 're'), (i, 'im')):
            if not (w.k == 'tn' and w.a[0].k == 'rd' and w.a[0].a[0] == 'rec' and w.a[0].a[2] == 8):
                raise Bad('the weight of successor %d is (%s, %s)' % (j, show(r)[:80], show(i)[:80]))
            role[w.a[0].a[1]] = (8, '%s of successor %d' % (part, j))

    def slot(self, j):
        return self.slots.get(j)

    slots = {}

    def learn(self):
        """which word is the index of which successor: from the states in which it is looked up"""
        self.slots = {}
        for st, t, where, tr in self.cl.nodes:
            for j, e in enumerate(self.cl.children(t)):
                if e[0].k == 'load' and pbase(e[0].a[0]).k == 'pair':
                    x = pbase(e[0].a[0]).a[1]
                    if x.k == 'rd':
                        self.slots.setdefault(j, x.a[1])

    def header(self, h, layout):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        ctx.require('entries into the record loop of ' + nm, len(cl.entries.get(h, ())), 1)
        for st in cl.entries[h]:
            rd = [e for e in st.c[1] if e[0] == 'rd'] + [x for e in st.c[0] if e[0] == 'loop' for x in e[2] if x[0] == 'rd']
            ctx.ob('%s: the header is complete before records are read' % nm, self.known_good(st), 'the stream is not known to be good after the header', nm, eng.trace(st))
            ver = mk('rd', 'hdr', 0, 8)
            r = st.facts.get(('r', ver))
            ctx.ob('%s: another version is refused' % nm, r is not None and r[0] == r[1], 'the version is not known to be the right one', nm, eng.trace(st))
            if r is not None and r[0] == r[1]:
                layout.setdefault('version', r[0])
                if layout['version'] != r[0]:
                    ctx.ob('%s: one version' % nm, False, 'two versions', nm)
            layout['header'] = sum(e[2] for e in rd)

    def result(self, h, layout):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        ctx.require('results of ' + nm, len(cl.finals), 1)
        for st, _ in cl.finals:
            tok = cl.token(st)
            tr = eng.trace(st)
            gc = mk('gcount', tok)
            whole = eng.decide(st, mk('icmp', 'eq', gc, ci(64, 0), 64)) is True or eng.decide(st, mk('icmp', 'sgt', gc, ci(64, 0), 64)) is False
            ctx.ob('%s: reading ends where a record would begin' % nm, whole and tok.a[0] is mk('rd', 'rec', 0, 8) if False else whole, 'it is not known that the last record is complete', nm, tr)
            ctx.ob('%s: reading ends only at the end of the input' % nm, eng.decide(st, mk('good', tok)) is False, 'records that are there are not read', nm, tr)
            t, r, i = cl.edge(eng, st.copy(), mk('arg', 0))
            got = self.carried(h, t)
            if got is None:
                ctx.ob('%s: the result is the node of the last record' % nm, False, 'the result is %s' % show(t)[:100], nm, tr)
                continue
            ns = [[e[1] for e in s.c[1] if e[0] == 'node'] for s, v in got]
            ctx.ob('%s: the result is the node of the last record' % nm, all(v is n[-1] if n else v in self.terms for (s, v), n in zip(got, ns)),
                   'after a record the result is %s' % [show(v)[:60] for s, v in got if v is None or v.k != 'node'][:2], nm, tr)
            self.weight(st, h, r, i, t, layout, tr)

    def weight(self, st, h, r, i, t, layout, tr):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        ok = False
        msg = 'the weight of the result is (%s, %s)' % (show(r)[:120], show(i)[:120])
        if r.k == 'tn' and i.k == 'tn' and r.a[0].k == 'prod' and i.a[0].k == 'prod' and r.a[0].a[1:] == i.a[0].a[1:] and (r.a[0].a[0], i.a[0].a[0]) == (0, 1):
            x = r.a[0].a[1:3], r.a[0].a[3:5]
            for a, b in (x, x[::-1]):
                if all(w.k == 'rd' and w.a[0] == 'hdr' and w.a[2] == 8 for w in a) and all(w.k == 'val' for w in b):
                    own = [self.carried(h, w.a[0]) for w in b]
                    if None in own:
                        continue
                    layout[('hdr', a[0].a[1])], layout[('hdr', a[1].a[1])] = (8, 're'), (8, 'im')
                    ok = True
                    for k in (0, 1):
                        for s, v in own[k]:
                            ns = [e[1] for e in s.c[1] if e[0] == 'node']
                            if ns and v is not mk('nw', ns[-1], k):
                                ok, msg = False, 'after a record the weight of the result is %s' % show(v)[:80]
        ctx.ob('%s: the weight of the result is the weight of the header times that of the node' % nm, ok, msg, nm, tr)


class Bad(Exception):
    pass


class Sources(Unit):
    """functions that go over the nodes X of a given diagram"""

    def succ(self, eng, st, X, j, o):
        """field o of successor j of X"""
        return eng.load(st, aspval(ptr(as_ptr(X), self.eoff + NE * j + o)), 8, 'ptr')

    def lookup_of(self, st, t):
        """(table, key) of a value taken from a table"""
        if t.k == 'load' and pbase(t.a[0]).k == 'pair' and poff(t.a[0]) == 8:
            return pbase(t.a[0])
        return None

    def level_of(self, v):
        """the node whose level v is"""
        if v.k == 'load' and poff(v.a[0]) == self.voff:
            return pbase(v.a[0])
        return None


class Writer(Sources):
    def __init__(self, ctx, m, lib, fn, nm, nt, args, rec=None):
        self.nt, self.nm = nt, nm
        self.terms = {t for k, t in lib.terms.items() if k == nt}
        self.eoff = 0
        self.voff = lib.voffs[nt]
        super().__init__(ctx, m, lib, fn, args, rec)

    def record(self, st, wr, layout, tr, k):
        """the words written are the record of one node; returns (node, index written)"""
        ctx, eng, nm = self.ctx, self.eng, self.nm
        s = st.copy()
        offs, o = {}, 0
        for _, size, v in wr:
            offs[o] = (size, v)
            o += size
        xs = {self.level_of(v) for size, v in offs.values() if size == 1} - {None}
        if not ctx.ob('%s: a record has the level of one node' % nm, len(xs) == 1, 'written: %s' % [(z, show(v)[:60]) for z, v in offs.values()], nm, tr):
            return None
        X = xs.pop()
        index = None
        for o, (size, v) in offs.items():
            r = layout.get(o)
            msg = 'byte %d: %d bytes %s, where %s is read' % (o, size, show(v)[:100], r)
            if r is None or r[0] != size:
                ok = False
            elif r[1] == 'level':
                ok = self.level_of(v) is X
            elif r[1] == 'index':
                ok, index = True, v
            else:
                what, j = r[1].split(' ')[0], int(r[1].split(' ')[-1])
                q = self.succ(eng, s, X, j, 0)
                if what == 'index':
                    end = self.is_term(st, q)
                    if v.k == 'i':
                        ok = v.a[1] == -1 and end is True
                    else:
                        p = self.lookup_of(st, v)
                        ok = p is not None and p.a[1] is q and end is False
                        if ok:
                            self.tables.add(p.a[0])
                else:
                    ok = v is mk('val', self.succ(eng, s, X, j, 8 if what == 're' else 16))
            ctx.ob('%s: every record is written as it is read' % nm, ok, msg, nm, tr)
        ctx.ob('%s: every record is written in full' % nm, sum(z for z, _ in offs.values()) == layout['size'], '%d bytes written, %d read' % (sum(z for z, _ in offs.values()), layout['size']), nm, tr)
        return X, index

    def head(self, wr, layout, edge, st, tr):
        ctx, eng, nm, lib = self.ctx, self.eng, self.nm, self.lib
        o, ok, msg = 0, True, ''
        s = st.copy()
        for _, size, v in wr:
            r = layout.get(('hdr', o))
            if o == 0:
                ok = ok and size == 8 and v.k == 'i' and v.a[1] == layout['version']
                msg = msg or '' if ok else 'the version written is %s' % show(v)[:60]
            elif r is None or r[0] != size or v is not mk('val', eng.load(s, aspval(ptr(edge, 8 if r[1] == 're' else 16)), 8, 'ptr')):
                ok = False
                msg = msg or 'byte %d of the header is %s' % (o, show(v)[:80])
            o += size
        ctx.ob('%s: the header is written as it is read' % nm, ok and o == layout['header'], msg or '%d bytes written, %d read' % (o, layout['header']), nm, tr)


class VectorWriter(Writer):
    follow = True

    def check(self, layout):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        self.tables = set()
        hs = [h for h in cl.iters if any(e[0] == 'wr' for it in cl.iters[h] for e in it[1])]
        ctx.require('loops of %s that write records' % nm, len(hs), 1)
        h = hs[0]
        counters = set()
        n = 0
        for st, (news, eff, facts, mem) in zip(cl.iter_states[h], cl.iters[h]):
            tr = eng.trace(st)
            wr = [e for e in eff if e[0] == 'wr']
            regs = [e for e in eff if e[0] == 'st' and pbase(e[1]).k == 'pair' and poff(e[1]) == 8]
            if not wr:
                ctx.ob('%s: a node that is numbered is written' % nm, not regs, 'a node gets an index and is not written', nm, tr)
                continue
            n += 1
            got = self.record(st, wr, layout, tr, n)
            if got is None:
                continue
            X, index = got
            ok = len(regs) == 1 and pbase(regs[0][1]).a[1] is X and regs[0][2] is index
            ctx.ob('%s: the index of a node is recorded for it' % nm, ok, 'stores into the table: %s, index written %s' % ([(show(pbase(e[1]))[:80], show(e[2])[:60]) for e in regs], show(index)[:60]), nm, tr)
            if ok:
                self.tables.add(pbase(regs[0][1]).a[0])
                # was it known before?
                f = facts.get(('b', mk('found', pbase(regs[0][1]))))
                ctx.ob('%s: a node is written once' % nm, f is False, 'a node is written that is not known to be new', nm, tr)
                counters.add(index)
        ctx.require('paths of %s that write a record' % nm, n, 1)
        ctx.ob('%s: one table of indices' % nm, len(self.tables) == 1, '%d tables' % len(self.tables), nm)
        if len(counters) == 1:
            self.counter(h, next(iter(counters)))
        else:
            ctx.ob('%s: nodes are numbered from 0' % nm, False, 'indices %s' % [show(c)[:40] for c in counters][:3], nm)
        for st in cl.entries[h]:
            wr = [e for e in st.c[1] if e[0] == 'wr'] + [x for e in st.c[0] if e[0] == 'loop' for x in e[2] if x[0] == 'wr']
            self.head(wr, layout, mk('arg', 0), st, eng.trace(st))
        for st, _ in cl.finals:
            if not any(e[0] == 'loop' for e in st.c[0]):
                self.head([e for e in st.c[1] if e[0] == 'wr'], layout, mk('arg', 0), st, eng.trace(st))

    def counter(self, h, c):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        news = self.carried(h, c)
        if news is None:
            ctx.ob('%s: nodes are numbered from 0' % nm, False, 'the index is %s' % show(c)[:80], nm)
            return
        for st, v in news:
            k = 1 if any(e[0] == 'wr' for e in st.c[1]) else 0
            ctx.ob('%s: nodes are numbered from 0' % nm, v is t_add(64, c, ci(64, k)), 'the next index is %s' % show(v)[:80], nm, eng.trace(st))
        for st in cl.entries[h]:
            v = st.env.get(c.a[1]) if c.k == 'phi' else eng.load(st, c.a[0], 8, 'i64')
            ctx.ob('%s: nodes are numbered from 0' % nm, v is ci(64, 0), 'the first index is %s' % show(v)[:60], nm, eng.trace(st))


class MatrixWriter(Writer):
    """the recursive writer: edge, counter, table of indices, set of nodes seen, stream, binary"""

    def check(self, layout):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        self.tables = set()
        c, table, seen = (mk('arg', k) for k in (1, 2, 3))
        X = mk('load', ptr(mk('arg', 0)), None)
        ctx.require('results of ' + nm, len(cl.finals), 2)
        n = 0
        for st, _ in cl.finals:
            tr = eng.trace(st)
            eff = [e for x in st.c[0] if x[0] == 'loop' for e in x[2]] + list(st.c[1])
            if any(x[0] == 'loop' for x in st.c[0]):
                raise AnalysisError('%s: a loop without a constant number of iterations' % nm)
            wr = [e for e in eff if e[0] == 'wr']
            recs = [e for e in eff if e[0] == 'rec']
            regs = [e for e in eff if e[0] == 'st' and pbase(e[1]).k == 'pair' and poff(e[1]) == 8]
            if self.is_term(st, X) is True:
                ctx.ob('%s: nothing is written for a terminal' % nm, not (wr or recs or regs), 'a terminal is written', nm, tr)
                continue
            n += 1
            got = self.record(st, wr, layout, tr, n)
            if got is None:
                continue
            Y, index = got
            ctx.ob('%s: the record of the node asked for' % nm, Y is X, 'the record of %s is written' % show(Y)[:80], nm, tr)
            # successors first
            first = [i for i, e in enumerate(eff) if e[0] in ('wr', 'st') and (e[0] == 'wr' or e in regs)]
            last = max([i for i, e in enumerate(eff) if e[0] in ('rec', 'seen')], default=-1)
            ctx.ob('%s: successors are written before the node' % nm, not first or last < first[0], 'a successor is written after the node', nm, tr)
            for j in range(4):
                q = self.succ(eng, st.copy(), X, j, 0)
                done = [i for i, e in enumerate(eff) if e[0] == 'rec' and as_ptr(e[1][0]) is ptr(X, self.eoff + NE * j)]
                new = [i for i, e in enumerate(eff) if e[0] == 'seen' and e[1] is q]
                known = not new and eng.decide(st, mk('found', mk('pair', seen, q))) is True
                skip = self.is_term(st, q) is True and not done
                ok = skip or known and not done or len(done) == 1
                ctx.ob('%s: every successor that was not seen before is written' % nm, ok, 'successor %d: %s' % (j, 'seen before' if known else 'written %d times' % len(done)), nm, tr)
            for e in recs:
                ctx.ob('%s: the successors continue the same numbering, tables and stream' % nm, tuple(e[1][1:]) == (c, table, seen, mk('arg', 4), BINARY), 'the recursion is called with %s' % [show(x)[:40] for x in e[1][1:]], nm, tr)
            # numbering
            cur = mk('load', ptr(c), ('rec', len(recs)) if recs else None)
            p = mk('pair', table, X)
            was = st.facts.get(('b', mk('found', p)))
            after = eng.load(st.copy(), c, 8, 'i64')
            if was is True and not regs:
                ok = index is mk('load', ptr(p, 8), index.a[1] if index.k == 'load' else None) and after is cur
            else:
                ok = len(regs) == 1 and pbase(regs[0][1]) is p and regs[0][2] is cur and index is cur and after is t_add(64, cur, ci(64, 1))
            ctx.ob('%s: the node gets the next index, and it is recorded for it' % nm, ok, 'index written %s, table %s, next index %s' % (show(index)[:60], [(show(pbase(e[1]))[:60], show(e[2])[:60]) for e in regs], show(after)[:60]), nm, tr)
            ctx.ob('%s: one table of indices' % nm, self.tables <= {table}, 'tables %s' % self.tables, nm, tr)
        ctx.require('paths of %s that write a record' % nm, n, 1)


class MatrixFront(Writer):
    def check(self, layout):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        self.tables = set()
        ctx.require('results of ' + nm, len(cl.finals), 1)
        for st, _ in cl.finals:
            tr = eng.trace(st)
            eff = st.c[1]
            i = [k for k, e in enumerate(eff) if e[0] == 'rec']
            ok = len(i) == 1
            if ok:
                a = eff[i[0]][1]
                wr = [e for e in eff[:i[0]] if e[0] == 'wr']
                self.head(wr, layout, mk('arg', 0), st, tr)
                new = {e[1] for e in eff[:i[0]] if e[0] == 'new'}
                ok = as_ptr(a[0]) is ptr(mk('arg', 0)) and as_ptr(a[1]).a[0].k == 'alloca' and {a[2], a[3]} <= new and a[2] is not a[3] and a[4] is mk('arg', 1) and a[5] is BINARY \
                    and not [e for e in eff[i[0]:] if e[0] == 'wr'] and eff[i[0]][2] is ci(64, 0)
            ctx.ob('%s: all nodes are written after the header, numbered from 0, with new tables' % nm, ok, 'recursions: %s' % [tuple(show(x)[:40] for x in eff[k][1]) for k in i], nm, tr)


class Transfer(Sources):
    follow = True

    def __init__(self, ctx, m, lib, fn, nm, nt, nq):
        self.nt, self.nm, self.nq = nt, nm, nq
        self.terms = {t for k, t in lib.terms.items() if k == nt}
        self.eoff, self.voff = 0, lib.voffs[nt]
        super().__init__(ctx, m, lib, fn, [mk('arg', 0), mk('arg', 1), mk('arg', 2)])

    def check(self):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        tables = set()
        ctx.require('nodes made by ' + nm, len(cl.nodes), 1)
        for st, t, where, tr in cl.nodes:
            X = self.level_of(t.a[0])
            if not ctx.ob('%s: a copy is made on the level of its original' % nm, X is not None, 'the level is %s' % show(t.a[0])[:80], where, tr):
                continue
            s = st.copy()
            for j, (p, r, i) in enumerate(cl.children(t)):
                q, a, b = (self.succ(eng, s, X, j, o) for o in (0, 8, 16))
                if self.is_term(st, q) is True:
                    ok = p is q or p in self.terms
                else:
                    k = self.lookup_of(st, p)
                    ok = k is not None and k.a[1] is q
                    if ok:
                        tables.add(k.a[0])
                ctx.ob('%s: the successors of a copy are the copies of the successors' % nm, ok, 'successor %d is %s' % (j, show(p)[:100]), where, tr)
                want = tuple(x if x in (self.lib.zero, self.lib.one) else cl.tn(mk('val', x)) for x in (a, b))
                ctx.ob('%s: the successors of a copy have the weights of the originals' % nm, (r, i) == want, 'successor %d has the weight (%s, %s)' % (j, show(r)[:80], show(i)[:80]), where, tr)
            ctx.ob('%s: the copy is made with interned weights' % nm, t.a[1] is False, 'scratch numbers are announced', where, tr)
        hs = [h for h in cl.iters if any(e[0] == 'node' for it in cl.iters[h] for e in it[1])]
        ctx.require('loops of %s that make copies' % nm, len(hs), 1)
        h = hs[0]
        for st, (news, eff, facts, mem) in zip(cl.iter_states[h], cl.iters[h]):
            tr = eng.trace(st)
            ns = [e[1] for e in eff if e[0] == 'node']
            regs = [e for e in eff if e[0] == 'st' and pbase(e[1]).k == 'pair' and poff(e[1]) == 8]
            if not ns:
                ctx.ob('%s: the copy is recorded for its original' % nm, not regs, 'something else is recorded', nm, tr)
                continue
            X = self.level_of(ns[-1].a[0])
            ok = len(ns) == len(regs) == 1 and pbase(regs[0][1]).a[1] is X and regs[0][2] is ns[0]
            ctx.ob('%s: the copy is recorded for its original' % nm, ok, 'recorded: %s' % [(show(pbase(e[1]))[:80], show(e[2])[:60]) for e in regs], nm, tr)
            if ok:
                tables.add(pbase(regs[0][1]).a[0])
                f = facts.get(('b', mk('found', pbase(regs[0][1]))))
                ctx.ob('%s: a node is copied once' % nm, f is False, 'a node is copied that is not known to be new', nm, tr)
        ctx.ob('%s: one table of copies' % nm, len(tables) == 1, '%d tables' % len(tables), nm)
        root = mk('arg', 2)
        p0 = mk('load', ptr(root), None)
        for st in cl.entries[h]:
            v = mk('load', ptr(p0, self.voff), None)
            ctx.ob('%s: a diagram on more levels than there are is refused' % nm, within(eng, st, v, mk('arg', 1), self.nq) or self.below(st, v), 'the highest level is not known to be below the number of qubits', nm, eng.trace(st))
        self.results(h, root)

    def below(self, st, v):
        # a node's level is not negative
        s = st.copy()
        if not self.eng.add_atom(s, self.eng.norm_cmp('slt', v, ci(8, 0), 8), False):
            return False
        return within(self.eng, s, v, mk('arg', 1), self.nq)

    def results(self, h, root):
        ctx, eng, cl, nm = self.ctx, self.eng, self.cl, self.nm
        ctx.require('results of ' + nm, len(cl.finals), 2)
        w0 = tuple(mk('load', ptr(root, o), None) for o in (8, 16))
        for st, _ in cl.finals:
            tr = eng.trace(st)
            t, r, i = cl.edge(eng, st.copy(), mk('arg', 0))
            p0 = mk('load', ptr(root), None)
            if not any(e[0] == 'loop' and e[1] == h for e in st.c[0]):
                ok = self.is_term(st, p0) is True and (t is p0 or t in self.terms)
                ctx.ob('%s: a terminal stays a terminal' % nm, ok, 'the result is %s' % show(t)[:80], nm, tr)
                want = tuple(cl.tn(mk('val', x)) for x in w0)
                ctx.ob('%s: a terminal keeps its weight' % nm, (r, i) == want, 'the weight is (%s, %s)' % (show(r)[:80], show(i)[:80]), nm, tr)
                continue
            ctx.ob('%s: the result is the copy made last' % nm, self.last(st, h, t, lambda n: n), 'the result is %s' % show(t)[:80], nm, tr)
            ok = False
            if r.k == 'tn' and i.k == 'tn' and r.a[0].k == 'prod' and i.a[0].k == 'prod' and r.a[0].a[1:] == i.a[0].a[1:] and (r.a[0].a[0], i.a[0].a[0]) == (0, 1):
                x = r.a[0].a[1:3], r.a[0].a[3:5]
                for a, b in (x, x[::-1]):
                    if tuple(self.plain(q) for q in a) == tuple(self.plain(mk('val', q)) for q in w0) and all(q.k == 'val' for q in b):
                        ok = ok or all(self.last(st, h, b[k].a[0], lambda n: mk('nw', n, k)) for k in (0, 1))
            ctx.ob('%s: the weight of the result is that of the original times that of the copy' % nm, ok, 'the weight is (%s, %s)' % (show(r)[:120], show(i)[:120]), nm, tr)

    def plain(self, v):
        """the diagram that is copied does not change meanwhile"""
        return as_ptr(v.a[0].a[0]) if v.k == 'val' and v.a[0].k == 'load' else v

    def last(self, st, h, x, f):
        """x is f of the node made last"""
        here = [e[1] for e in st.c[1] if e[0] == 'node']
        if here:
            return x is f(here[-1])
        got = self.carried(h, x)
        if got is None:
            return False
        for s, v in got:
            ns = [e[1] for e in s.c[1] if e[0] == 'node']
            if v is not (f(ns[-1]) if ns else x):
                return False
        return True


def check(ctx):
    roots = ['e_deserialize_v', 'e_deserialize_m', 'e_serialize_v', 'e_serialize_m', 'e_transfer_v', 'e_transfer_m']
    m0 = llvmir.Module(ctx.ir())
    hs = m0.heads('e_serialize_m')
    hs = [h for h in hs if m0.dname(h).startswith('dd::')]
    if len(hs) != 1:
        raise AnalysisError('%d recursive functions reached from serialize' % len(hs))
    rec = m0.dname(hs[0])
    m = ctx.module(roots, keep_out(rec))
    lib = denote.Lib(ctx, m)
    nq = package_field(ctx, 'nqubits')
    lay = {}
    for k, nt in (('v', 'dd::vNode'), ('m', 'dd::mNode')):
        u = Reader(ctx, m, lib, 'e_deserialize_' + k, 'deserialize<%s>' % nt[4:], nt, nq)
        u.learn()
        lay[k] = u.check()
        if not {'size', 'version', 'header', 0} <= set(lay[k]) or ctx.viol:
            # what is read is not known, so what is written cannot be compared with it
            ctx.ob('%s: a record layout' % u.nm, bool(ctx.viol), 'no record layout is recognised', u.nm)
            lay[k] = None
    if None not in lay.values():
        writers(ctx, m, lib, lay, hs[0], rec)
    for k, nt in (('v', 'dd::vNode'), ('m', 'dd::mNode')):
        Transfer(ctx, m, lib, 'e_transfer_' + k, 'transfer<%s>' % nt[4:], nt, nq).check()


def writers(ctx, m, lib, lay, fn, rec):
    VectorWriter(ctx, m, lib, 'e_serialize_v', 'serialize (state)', 'dd::vNode', [mk('arg', 0), mk('arg', 1), BINARY]).check(lay['v'])
    MatrixWriter(ctx, m, lib, fn, 'serializeMatrix', 'dd::mNode', [mk('arg', k) for k in range(5)] + [BINARY], rec).check(lay['m'])
    MatrixFront(ctx, m, lib, 'e_serialize_m', 'serialize (operator)', 'dd::mNode', [mk('arg', 0), mk('arg', 1), BINARY], rec).check(lay['m'])
