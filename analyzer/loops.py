"""Clients that log what every loop iteration does, and recognition of loops that visit a whole range."""
from absint import *


class LogClient(Client):
    """c = (events, effects of the current iteration / since the last loop header)"""
    initial = ((), ())
    log_stores = True

    def __init__(self):
        self.inits = {}      # header -> set of ((phi id, term), ...)
        self.iters = {}      # header -> list of (phi new values dict, effects, facts)
        self.iter_states = {}   # header -> states at the end of the iterations (same order)
        self.exits = {}      # header -> set of (cond, val)
        self.rets = []       # (events, effects, facts, mem, value, trace)
        self.ends = []

    def roots(self, eng, st, x):
        return True

    def event(self, st, ev):
        e, f = st.c
        st.c = (e + (ev,), f)

    def effect(self, st, ef):
        e, f = st.c
        st.c = (e, f + (ef,))

    def loop_entry(self, eng, st, h):
        self.inits.setdefault(h, set()).add(tuple((p.id, st.env[p.id]) for p in eng.fn.blocks[h].phis))

    def header(self, eng, st, h, back, k):
        if k < 0:
            e, f = st.c
            if not back:
                e = e + (('loop', h, f),)
            else:
                for j in range(len(e) - 1, -1, -1):
                    if e[j][0] == 'loop' and e[j][1] == h:
                        e = e[:j + 1]
                        break
            st.c = (e, ())

    def backedge(self, eng, st, h):
        if dict(st.it).get(h, -1) < 0:
            self.iter_states.setdefault(h, []).append(st.copy())
            self.iters.setdefault(h, []).append(({p.id: st.env[p.id] for p in eng.fn.blocks[h].phis}, st.c[1], dict(st.facts), dict(st.mem)))

    def loop_exit(self, eng, st, inst, cond, val, target):
        for h, k in st.it:
            if k < 0 and target not in eng.fn.loops[h]:
                self.exits.setdefault(h, set()).add((cond, val))

    def store(self, eng, st, inst, addr, val, size):
        if self.log_stores and pbase(addr).k != 'alloca':
            self.effect(st, ('st', addr, val, size))

    def ret(self, eng, st, inst, val):
        self.rets.append((st.c[0], st.c[1], dict(st.facts), dict(st.mem), val, eng.trace(st)))

    def end(self, eng, st, inst, kind):
        self.ends.append((kind, st.c[0], st.c[1], dict(st.facts), dict(st.mem), eng.trace(st)))


class Cover:
    """a recognised full traversal: element i of [base, base + n*stride)"""

    down = False      # index walk from count down to 0: the element visited is index-1

    def __init__(self, h, base, end, stride, elem, count):
        self.h, self.base, self.end, self.stride, self.elem, self.count = h, base, end, stride, elem, count

    def __repr__(self):
        return 'Cover(%s .. %s step %d)' % (self.base, self.end, self.stride)


def traversal(eng, cl, h):
    """Cover for loop h if it visits every element of one contiguous range, else None"""
    inits = cl.inits.get(h, ())
    iters = cl.iters.get(h, ())
    exits = cl.exits.get(h, ())
    if not inits or not iters or len(exits) != 1:
        return None
    cond, val = next(iter(exits))
    for pid, init in next(iter(inits)):
        if any(dict(i)[pid] is not init for i in inits):
            continue
        phi = mk('phi', h, pid)
        news = {it[0][pid] for it in iters}
        if len(news) != 1:
            continue
        new = next(iter(news))
        if pbase(new) is phi and poff(new) > 0:
            # pointer walk; the exit must be phi == end
            if cond.k == 'pcmp':
                n = eng.norm_pcmp(*cond.a)
                if isinstance(n, tuple) and n[0] == 'peq' and n[3] == val:
                    for x, y in ((n[1], n[2]), (n[2], n[1])):
                        if x is phi:
                            return Cover(h, init, y, poff(new), phi, None)
                        if pbase(x) is phi and poff(x) == poff(new) and poff(x) > 0:
                            # test after the step (rotated loop): end compared with the next element
                            return Cover(h, init, y, poff(new), phi, None)
        if new.k == 'lin' and new.a[1] == ((phi, 1),) and new.a[2] == -1 and cond.k == 'icmp':
            n = eng.norm_cmp(*cond.a)
            if isinstance(n, tuple) and ((n[0] == 'req' and n[1] is phi and n[2] == 0 and n[-1] == val) or
                                         (n[0] == 'rgt' and n[1] == 'u' and n[2] is phi and n[3] == 0 and n[-1] != val)):
                c = Cover(h, None, None, None, phi, init)
                c.down = True
                return c
        if new.k == 'lin' and new.a[1] == ((phi, 1),) and new.a[2] == 1 and init.k == 'i' and init.a[1] == 0:
            # index walk; the exit must be !(i < n)
            if cond.k == 'icmp':
                w = cond.a[3]
                n = eng.norm_cmp(*cond.a)
                if isinstance(n, tuple):
                    lim = None
                    if n[0] == 'rlt' and n[2] is phi and n[-1] != val:
                        lim = ci(w, n[3])
                    elif n[0] == 'rgt' and n[2] is phi and n[-1] == val:
                        lim = ci(w, n[3] + 1)
                    elif n[0] == 'lt' and n[2] is phi and n[-1] != val:
                        lim = n[3]
                    elif n[0] == 'req' and n[-1] == val:
                        d = t_add(w, n[1], phi, -1)
                        d2 = t_add(w, n[1], phi)
                        if n[1] is phi:
                            lim = ci(w, n[2])
                        else:
                            p, c = lin_parts(n[1], w)
                            k = p.get(phi, 0)
                            if k in (1, -1):
                                q = {a: b * -k for a, b in p.items() if a is not phi}
                                lim = mk_lin(w, q, n[2] * k)
                    if lim is not None:
                        return Cover(h, None, None, None, phi, lim)
    return None


def elem_addr(cov, addr):
    """offset of addr inside the visited element, with the array base for index walks: (base, off) or None"""
    addr = as_ptr(addr)
    b, o = addr.a
    if cov.stride is not None:
        return (cov.base, o) if b is cov.elem and 0 <= o < cov.stride else None
    if b.k == 'idx' and b.a[2] is cov.elem:
        return (b.a[0], o)
    return None


def range_end(eng, cov, base, scale):
    """for index walks: the end pointer implied by count for an array at base with element size scale"""
    lim = cov.count
    p, c = lin_parts(lim, 64)
    return lim
