"""C18: gate matrices are the standard definitions (polynomial normal forms of every entry)."""
from common import *
from absint import *
from loops import *
from poly import *

LOC = 'GateMatrixDefinitions.hpp'


def definitions(angles=None):
    a, b, c = angles or (atom(mk('arg', j)) for j in (1, 2, 3))
    half = C(F(1, 2))
    s2 = Z(P({((S2, 1),): F(1)}))
    o, z, i = Z(1), Z(0), Z(0, 1)
    one4 = [[o if r == k else z for k in range(4)] for r in range(4)]

    def ex(p):
        return expi(p)

    def trigh(p):
        s, k = trig(p * half)
        return Z(s), Z(k)

    d = {
        'Imat': [[o, z], [z, o]], 'Hmat': [[s2, s2], [s2, -s2]], 'Xmat': [[z, o], [o, z]], 'Ymat': [[z, -i], [i, z]],
        'Zmat': [[o, z], [z, -o]], 'Smat': [[o, z], [z, i]], 'Sdagmat': [[o, z], [z, -i]],
        'Tmat': [[o, z], [z, ex(num(math.pi / 4))]], 'Tdagmat': [[o, z], [z, ex(num(-math.pi / 4))]],
    }
    h = Z(half, half)
    d['SXmat'] = [[h, h.conj()], [h.conj(), h]]
    d['SXdagmat'] = [[h.conj(), h], [h, h.conj()]]
    d['Vmat'] = [[s2, -i * s2], [-i * s2, s2]]
    d['Vdagmat'] = [[s2, i * s2], [i * s2, s2]]
    st, ct = trigh(c)
    d['U3mat'] = [[ct, -ex(a) * st], [ex(b) * st, ex(a + b) * ct]]            # U3mat(lambda, phi, theta)
    d['U2mat'] = [[s2, -ex(a) * s2], [ex(b) * s2, ex(a + b) * s2]]            # U2mat(lambda, phi)
    d['Phasemat'] = [[o, z], [z, ex(a)]]
    sa, ca = trigh(a)
    d['RXmat'] = [[ca, -i * sa], [-i * sa, ca]]
    d['RYmat'] = [[ca, -sa], [sa, ca]]
    d['RZmat'] = [[ca - i * sa, z], [z, ca + i * sa]]

    def m4(e):
        return [[e.get((r, k), z) for k in range(4)] for r in range(4)]
    d['CXmat'] = m4({(0, 0): o, (1, 1): o, (2, 3): o, (3, 2): o})
    d['CZmat'] = m4({(0, 0): o, (1, 1): o, (2, 2): o, (3, 3): -o})
    d['SWAPmat'] = m4({(0, 0): o, (1, 2): o, (2, 1): o, (3, 3): o})
    d['iSWAPmat'] = m4({(0, 0): o, (1, 2): i, (2, 1): i, (3, 3): o})
    d['iSWAPinvmat'] = m4({(0, 0): o, (1, 2): -i, (2, 1): -i, (3, 3): o})
    j = i * s2
    d['ECRmat'] = [[z, z, s2, j], [z, z, j, s2], [s2, -j, z, z], [-j, s2, z, z]]
    d['DCXmat'] = m4({(0, 0): o, (1, 3): o, (2, 1): o, (3, 2): o})
    n = -i * sa
    p = i * sa
    d['RXXmat'] = m4({(0, 0): ca, (1, 1): ca, (2, 2): ca, (3, 3): ca, (0, 3): n, (1, 2): n, (2, 1): n, (3, 0): n})
    d['RYYmat'] = m4({(0, 0): ca, (1, 1): ca, (2, 2): ca, (3, 3): ca, (0, 3): p, (1, 2): n, (2, 1): n, (3, 0): p})
    d['RZZmat'] = m4({(0, 0): ca + n, (1, 1): ca + p, (2, 2): ca + p, (3, 3): ca + n})
    d['RZXmat'] = m4({(0, 0): ca, (1, 1): ca, (2, 2): ca, (3, 3): ca, (0, 1): n, (1, 0): n, (2, 3): p, (3, 2): p})
    d['XXMinusYYmat'] = m4({(0, 0): ca, (0, 3): n * ex(b), (1, 1): o, (2, 2): o, (3, 0): n * ex(-b), (3, 3): ca})
    d['XXPlusYYmat'] = m4({(0, 0): o, (1, 1): ca, (1, 2): n * ex(b), (2, 1): n * ex(-b), (2, 2): ca, (3, 3): o})
    return d


def dagger(m):
    n = len(m)
    return [[m[c][r].conj() for c in range(n)] for r in range(n)]


def matmul(x, y):
    n = len(x)
    out = []
    for r in range(n):
        row = []
        for c in range(n):
            t = Z(0)
            for k in range(n):
                t = t + x[r][k] * y[k][c]
            row.append(t)
        out.append(row)
    return out


def check(ctx):
    ctx.rule('Every entry of every gate matrix, read off the value stored on each path as a polynomial in sines and cosines of the '
             'parameters, equals the entry of the standard definition; the matrix times its conjugate transpose is the identity.')
    ctx.assume.append('Equality is over the reals: rounding and the accuracy of the sine and cosine routines are not part of it. '
                      'The doubles in the matrices are read as the simple rational multiple of 1 or sqrt(1/2) they are nearest to.')
    d = definitions()
    m = ctx.module(['g_' + n for n in d])
    got = {}
    for name, want in sorted(d.items()):
        n = len(want)
        cl = Final()
        eng = Engine(m.fn('g_' + name), cl, m.statics).run()
        ctx.ran(eng)
        ctx.require('results of ' + name, len(cl.finals), 1)
        for s, val, tr in cl.finals:
            mat = []
            for r in range(n):
                row = []
                for c in range(n):
                    o = 16 * (n * r + c)
                    re, im = (read(eng, s, o + q) for q in (0, 8))
                    v = Z(poly(re), poly(im))
                    row.append(v)
                    ctx.ob('%s: entry [%d][%d]' % (name, r, c), v == want[r][c],
                           'the entry is %s, the definition is %s' % (v, want[r][c]), LOC + ': ' + name, tr)
                mat.append(row)
            u = matmul(mat, dagger(mat))
            ctx.ob('%s: unitary' % name, all(u[r][c] == Z(1 if r == c else 0) for r in range(n) for c in range(n)),
                   'the matrix times its conjugate transpose is not the identity', LOC + ': ' + name, tr)
            got[name] = mat
    for x, y in (('Smat', 'Sdagmat'), ('Tmat', 'Tdagmat'), ('SXmat', 'SXdagmat'), ('Vmat', 'Vdagmat'), ('iSWAPmat', 'iSWAPinvmat')):
        ctx.ob('%s and %s are inverse' % (x, y), dagger(got[x]) == got[y], '%s is not the conjugate transpose of %s' % (y, x), LOC)


class Final(Client):
    def __init__(self):
        self.finals = []

    def ret(self, eng, st, inst, val):
        self.finals.append((st.copy(), val, eng.trace(st)))


def read(eng, s, off):
    return eng.load(s, ptr(mk('arg', 0), off), 8, 'double')
