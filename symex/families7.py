"""Harnesses: matrix-vector and matrix-matrix products."""
from fractions import Fraction
from . import fp
from .fp import pow2
from .spec import FM, NC, BASE
from .acc import Acc, model
from .families import expect_all
from .families3 import convert

HALF = {64: 500, 32: 60}


def scalar_arg(X, t, name, spec):
    """a factor: per part a number, or (least, largest) of an unknown one (its negative as well). returns (parts, call argument)"""
    w, nc = FM[t].w, NC[t]
    vs = []
    for c in range(nc):
        s = spec[c] if isinstance(spec, list) else spec if c == 0 else 0
        if isinstance(s, tuple):
            vs.append(X.val('%s%s' % (name, 'ri'[c]), w, Fraction(s[1]), Fraction(s[0])))
        else:
            vs.append(fp.enc(w, Fraction(s)))
    if nc == 1:
        return vs, (t, vs[0])
    return vs, X.buf(name, w, 2, dict(enumerate(vs)), ro=True)


def is_number(spec, v):
    s = spec if isinstance(spec, list) else [spec, 0]
    return not isinstance(s[0], tuple) and s[0] == v and s[1:2] in ([], [0])


def times(X, w, a, b):
    """rounded product of two numbers given by parts"""
    E = X.E
    if len(a) == 1:
        return [fp.fmul(E, w, a[0], b[0])]
    return [fp.fadd(E, w, fp.fmul(E, w, a[0], b[0]), fp.fneg(E, w, fp.fmul(E, w, a[1], b[1]))),
            fp.fadd(E, w, fp.fmul(E, w, a[0], b[1]), fp.fmul(E, w, a[1], b[0]))]


def conj(X, w, a):
    return [a[0], fp.fneg(X.E, w, a[1])] if len(a) == 2 else a


def products(X, w, terms, a, b, J, fm, lo):
    """append the rounded partial products of a*b to the terms of each part"""
    E = X.E
    for i in range(len(a)):
        for j in range(len(b)):
            v = X.product(w, a[i], b[j], fm.hi(J), lo)
            terms[i ^ j].append(fp.fneg(E, w, v) if i and j else v)


class Matrix:
    """rows x cols with leading dimension ld in the given order; el: element values by (row, column)"""

    def __init__(self, X, t, name, order, rows, cols, ld, hi, period=None):
        w, nc = FM[t].w, NC[t]
        self.rows, self.cols, self.ld, self.order = rows, cols, ld, order
        self.el = {}
        init = {}
        row = order in 'rR'
        for r in range(rows):
            for q in range(cols):
                if period and (r >= period or q >= period):
                    v = self.el[r % period, q % period]
                else:
                    v = [X.val('%s%d_%d%s' % (name, r, q, 'ri'[c]), w, hi) for c in range(nc)]
                self.el[r, q] = v
                at = r * ld + q if row else q * ld + r
                for c in range(nc):
                    init[at * nc + c] = v[c]
        n, m = (rows, cols) if row else (cols, rows)
        self.buf = X.buf(name, w, ((n - 1) * ld + m) * nc if n and m else 0, init, ro=True)

    def op(self, X, w, trans, r, q):
        """element of the matrix, its transpose or its conjugate transpose"""
        if trans in 'nN':
            return self.el[r, q]
        v = self.el[q, r]
        return conj(X, w, v) if trans in 'cC' else v


def sizes(X, w, alpha):
    """largest magnitudes (as exponents) of the first matrix and of the other operand"""
    scaled = not is_number(alpha, 1)
    if not X.conc:
        F = fp.FMT[w]
        return F['emax'], HALF[w] if scaled else F['emax']
    h, k = X.hs
    # room for the product with alpha (at most 2^10 in magnitude)
    return h, max(k - 12, fp.FMT[w]['gmin'] + 3) if scaled else k


def h_gemv(X, t, fold, order, trans, M, N, lda, incX, incY, J, alpha=1, start='zero', each=False, period=None):
    """y := alpha op(A) x + y for a vector y of accumulators; the largest product of each sum has index J (each: all of them have)"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    E = X.E
    ny, nx = (M, N) if trans in 'nN' else (N, M)
    X.split(fm, J)
    ha, hx = sizes(X, w, alpha)
    A = Matrix(X, t, 'A', order, M, N, lda, ha, period)
    al, alarg = scalar_arg(X, t, 'alpha', alpha)
    xs = [[X.val('x%d%s' % (n, 'ri'[c]), w, hx) for c in range(nc)] for n in range(min(nx, period or nx))]
    xs = [xs[n % len(xs)] for n in range(nx)]
    V = X.buf('x', w, ((nx - 1) * incX + 1) * nc if nx else 0, {n * incX * nc + c: xs[n][c] for n in range(nx) for c in range(nc)}, ro=True)
    Y = Acc(X, t, fold, 'Y', start, None, count=ny, step=incY)
    ms = [[model(Y, c, e) for c in range(nc)] for e in range(ny)]
    none = M == 0 or N == 0 or is_number(alpha, 0)
    if not none:
        bx = xs if is_number(alpha, 1) else [times(X, w, x, al) for x in xs]
        low = fm.lo(J) if each else None
        for r in range(ny):
            terms = [[] for _ in range(nc)]
            for q in range(nx):
                products(X, w, terms, A.op(X, w, trans, r, q), bx[q], J, fm, low)
            for c in range(nc):
                X.group(w, terms[c], fm.lo(J), fm.hi(J))
                ms[r][c].shift(J, terms[c])
                for v in terms[c]:
                    ms[r][c].add(v)
    X.call('binnedBLAS_%sb%sgemv' % (t, t), None, fold, ord(order), ord(trans), M, N, alarg, A.buf, lda, V, incX, Y.pbuf, incY)
    for e in range(ny):
        if none:
            for c in range(nc):
                (Y.expect_zero if Y.start[e * nc + c][0] is None else Y.expect_same)('element %d part %d' % (e, c), c, e)
        else:
            expect_all(Y, ms[e], 'element %d' % e, e)
    Y.check_gaps()


def h_gemm(X, t, fold, order, ta, tb, M, N, K, lda, ldb, ldc, J, alpha=1, start='zero', each=False, period=None):
    """C := alpha op(A) op(B) + C for a matrix C of accumulators"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    X.split(fm, J)
    hb, ha = sizes(X, w, alpha)
    A = Matrix(X, t, 'A', order, *((M, K) if ta in 'nN' else (K, M)), lda, ha, period)
    B = Matrix(X, t, 'B', order, *((K, N) if tb in 'nN' else (N, K)), ldb, hb, period)
    al, alarg = scalar_arg(X, t, 'alpha', alpha)
    n, m = (M, N) if order in 'rR' else (N, M)
    count = (n - 1) * ldc + m if n and m else 0
    inits = []
    for e in range(count):
        inits += [start if e % ldc < m else None] * nc
    C = Acc(X, t, fold, 'C', inits, None, count=count)
    none = M == 0 or N == 0 or K == 0 or is_number(alpha, 0)
    ms = {}
    low = fm.lo(J) if each else None
    aa = {}
    for i in range(M):
        for j in range(N):
            e = i * ldc + j if order in 'rR' else j * ldc + i
            ms[e] = [model(C, c, e) for c in range(nc)]
            if none:
                continue
            terms = [[] for _ in range(nc)]
            for k in range(K):
                if (i, k) not in aa:
                    a = A.op(X, w, ta, i, k)
                    aa[i, k] = a if is_number(alpha, 1) else times(X, w, a, al)
                products(X, w, terms, aa[i, k], B.op(X, w, tb, k, j), J, fm, low)
            for c in range(nc):
                X.group(w, terms[c], fm.lo(J), fm.hi(J))
                ms[e][c].shift(J, terms[c])
                for v in terms[c]:
                    ms[e][c].add(v)
    X.call('binnedBLAS_%sb%sgemm' % (t, t), None, fold, ord(order), ord(ta), ord(tb), M, N, K, alarg, A.buf, lda, B.buf, ldb, C.pbuf, ldc)
    for e in ms:
        if none:
            for c in range(nc):
                (C.expect_zero if C.start[e * nc + c][0] is None else C.expect_same)('element %d part %d' % (e, c), c, e)
        else:
            expect_all(C, ms[e], 'element %d' % e, e)
    # nothing between the rows (columns) changes
    used = set()
    size = 2 * fold * nc
    for e in ms:
        used |= set(range(e * size, (e + 1) * size))
    X.untouched(C.pbuf, used)


# -- one-call routines (R20) -----------------------------------------------------------------------------------------
def pinned(X, fm, v, J):
    """the largest magnitude of v has index J"""
    w = fm.w
    if X.conc or isinstance(v, int):
        return v
    F = fp.FMT[w]
    (at, c), = v.terms.items()
    at.anyval = False
    X.E.fpst.bnd[at] = fp.p2(fm.hi(J)) - fp.p2(max(fm.hi(J) - F['p'], F['gmin']))
    X.E.fpst.ver += 1
    X.atleast(w, v, fm.lo(J))
    return v


def before(X, t, J, name, n, beta):
    """n numbers, the values they have after scaling with beta (index J), and beta as an argument"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    be, bearg = scalar_arg(X, t, 'beta', beta)
    one = is_number(beta, 1)
    ys, zs = [], []
    for i in range(n):
        if one:
            y = [X.val('%s%d%s' % (name, i, 'ri'[c]), w, fm.hi(J), fm.lo(J)) for c in range(nc)]
            z = y
        else:
            h = fm.hi(J) - 12 if X.conc else min(fm.hi(J) + 1, fp.FMT[w]['emax'] - 12)
            y = [X.val('%s%d%s' % (name, i, 'ri'[c]), w, max(h, fp.FMT[w]['gmin'] + 2)) for c in range(nc)]
            z = None if is_number(beta, 0) else [pinned(X, fm, v, J) for v in times(X, w, y, be)]
        ys.append(y)
        zs.append(z)
    return ys, zs, bearg


def start_of(X, t, fold, zs):
    """contents of accumulators set from the given numbers"""
    nc, w = NC[t], FM[t].w
    out = []
    for i, z in enumerate(zs):
        if z is None:
            out += ['zero'] * nc
            continue
        T = Acc(X, t, fold, 'T%d' % i, None)
        arg = (t, z[0]) if nc == 1 else X.buf('z%d' % i, w, 2, dict(enumerate(z)), ro=True)
        X.call('binned_%sb%sconv' % (t, t), None, fold, arg, *T.args())
        out += [('raw', [p for p, _ in T.values(c)], [q for _, q in T.values(c)]) for c in range(nc)]
    return out


def finish(X, t, fold, Y, n, got, label):
    """numbers returned = conversions of the accumulators"""
    nc, w = NC[t], FM[t].w
    for e in range(n):
        T = Acc(X, t, fold, 'R%d' % e, [('raw', [p for p, _ in Y.values(c, e)], [q for _, q in Y.values(c, e)]) for c in range(nc)])
        v = convert(X, t, fold, T)
        for c in range(nc):
            X.eq('%s %d part %d' % (label, e, c), w, got(e, c), v[c])


def h_rgemv(X, t, fold, order, trans, M, N, lda, incX, incY, J, Jy, alpha=1, beta=1):
    """one-call y := alpha op(A) x + beta y; fold None: default fold"""
    from .families4 import DEFAULTFOLD
    fm, nc = FM[t], NC[t]
    w = fm.w
    f = DEFAULTFOLD if fold is None else fold
    ny, nx = (M, N) if trans in 'nN' else (N, M)
    X.split(fm, J)
    ha, hx = sizes(X, w, alpha)
    A = Matrix(X, t, 'A', order, M, N, lda, ha)
    al, alarg = scalar_arg(X, t, 'alpha', alpha)
    xs = [[X.val('x%d%s' % (n, 'ri'[c]), w, hx) for c in range(nc)] for n in range(nx)]
    V = X.buf('x', w, ((nx - 1) * incX + 1) * nc if nx else 0, {n * incX * nc + c: xs[n][c] for n in range(nx) for c in range(nc)}, ro=True)
    ys, zs, bearg = before(X, t, Jy, 'y', ny, beta)
    Y = X.buf('y', w, ((ny - 1) * incY + 1) * nc if ny else 0, {n * incY * nc + c: ys[n][c] for n in range(ny) for c in range(nc)})
    none = M == 0 or N == 0
    if not none and not is_number(alpha, 0):
        bx = xs if is_number(alpha, 1) else [times(X, w, x, al) for x in xs]
        for r in range(ny):
            terms = [[] for _ in range(nc)]
            for q in range(nx):
                products(X, w, terms, A.op(X, w, trans, r, q), bx[q], J, fm, None)
            for c in range(nc):
                X.group(w, terms[c], fm.lo(J), fm.hi(J))
    lead = [] if fold is None else [fold]
    args = [ord(order), ord(trans), M, N, alarg, A.buf, lda, V, incX]
    if not none:
        S = Acc(X, t, f, 'S', start_of(X, t, f, zs), None, count=ny)
    X.call('reproBLAS_%s%sgemv' % ('' if fold is None else 'r', t), None, *(lead + args + [bearg, Y, incY]))
    if none:
        X.ensure('nothing to do', True)
        for n in range(ny):
            for c in range(nc):
                X.eq('element %d part %d' % (n, c), w, X.get(Y, n * incY * nc + c), ys[n][c])
    else:
        X.call('binnedBLAS_%sb%sgemv' % (t, t), None, *([f] + args + [S.pbuf, 1]))
        finish(X, t, f, S, ny, lambda e, c: X.get(Y, e * incY * nc + c), 'element')
    X.untouched(Y, {n * incY * nc + c for n in range(ny) for c in range(nc)})


def h_rgemm(X, t, fold, order, ta, tb, M, N, K, lda, ldb, ldc, J, Jy, alpha=1, beta=1):
    """one-call C := alpha op(A) op(B) + beta C"""
    from .families4 import DEFAULTFOLD
    fm, nc = FM[t], NC[t]
    w = fm.w
    f = DEFAULTFOLD if fold is None else fold
    X.split(fm, J)
    hb, ha = sizes(X, w, alpha)
    A = Matrix(X, t, 'A', order, *((M, K) if ta in 'nN' else (K, M)), lda, ha)
    B = Matrix(X, t, 'B', order, *((K, N) if tb in 'nN' else (N, K)), ldb, hb)
    al, alarg = scalar_arg(X, t, 'alpha', alpha)
    n, m = (M, N) if order in 'rR' else (N, M)
    ys, zs, bearg = before(X, t, Jy, 'c', n * m, beta)
    at = lambda e, c: ((e // m) * ldc + e % m) * nc + c
    C = X.buf('C', w, ((n - 1) * ldc + m) * nc if n and m else 0, {at(e, c): ys[e][c] for e in range(n * m) for c in range(nc)})
    none = M == 0 or N == 0
    if not none and not is_number(alpha, 0):
        aa = {}
        for i in range(M):
            for j in range(N):
                terms = [[] for _ in range(nc)]
                for k in range(K):
                    if (i, k) not in aa:
                        a = A.op(X, w, ta, i, k)
                        aa[i, k] = a if is_number(alpha, 1) else times(X, w, a, al)
                    products(X, w, terms, aa[i, k], B.op(X, w, tb, k, j), J, fm, None)
                if K:
                    for c in range(nc):
                        X.group(w, terms[c], fm.lo(J), fm.hi(J))
    lead = [] if fold is None else [fold]
    args = [ord(order), ord(ta), ord(tb), M, N, K, alarg, A.buf, lda, B.buf, ldb]
    if not none:
        S = Acc(X, t, f, 'S', start_of(X, t, f, zs), None, count=n * m)
    X.call('reproBLAS_%s%sgemm' % ('' if fold is None else 'r', t), None, *(lead + args + [bearg, C, ldc]))
    if none:
        X.ensure('nothing to do', True)
    else:
        X.call('binnedBLAS_%sb%sgemm' % (t, t), None, *([f] + args + [S.pbuf, m]))
        finish(X, t, f, S, n * m, lambda e, c: X.get(C, at(e, c)), 'element')
    X.untouched(C, {at(e, c) for e in range(n * m) for c in range(nc)})
