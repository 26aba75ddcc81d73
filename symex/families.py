"""Harnesses."""
from fractions import Fraction
from . import fp, spec
from .fp import pow2
from .spec import FM, NC, BASE, as_aff
from .acc import Acc, Model, model, total
from .ir import UNDEF


def scalar(X, t, name, js, w=None):
    """one number of type t whose components have the given indices; returns (components, argument)"""
    fm = FM[t]
    vs = [X.val('%s%s' % (name, 'ri'[c]), fm.w, fm.hi(js[c]), fm.lo(js[c])) for c in range(NC[t])]
    if NC[t] == 1:
        return vs, (BASE[t], vs[0])
    b = X.buf(name, fm.w, 2, vs, ro=True)
    return vs, b


def h_add(X, t, fold, js, start='zero', form=None):
    """adding numbers one at a time; js: per number a tuple of component indices"""
    nc = NC[t]
    Y = Acc(X, t, fold, 'Y', start, form)
    ms = [model(Y, c) for c in range(nc)]
    for n, j in enumerate(js):
        vs, arg = scalar(X, t, 'x%d' % n, j)
        X.call('binned_%s%sadd' % (t + ('b' if form is None else 'm'), t), None, fold, arg, *Y.args())
        for c in range(nc):
            ms[c].add(vs[c], j[c])
    for c in range(nc):
        Y.expect('sum part %d' % c, ms[c].I, ms[c].T, c)
    Y.check_gaps()


def h_merge(X, t, fold, sx, sy, form=None, aliased=False):
    """merging X into Y; sx, sy: starting states per component"""
    nc = NC[t]
    A = Acc(X, t, fold, 'X', sx, form, ro=True)
    B = Acc(X, t, fold, 'Y', sy, form)
    ms = [model(B, c) for c in range(nc)]
    for c in range(nc):
        ms[c].merge(model(A, c))
    p = t + ('b' if form is None else 'm')
    X.call('binned_%s%sadd' % (p, p), None, fold, *(A.args() + B.args()))
    for c in range(nc):
        if ms[c].I is None:
            B.expect_zero('merge of empty accumulators, part %d' % c, c)
        else:
            B.expect('merge part %d' % c, ms[c].I, ms[c].T, c)
        if not X.sym:
            A.expect_same('first argument part %d' % c, c)
    B.check_gaps()


def repeat(f, N, period):
    """N values, the first `period` ones over and over"""
    vs = [f(n) for n in range(min(N, period or N))]
    return [vs[n % period] if period else vs[n] for n in range(N)]


def vector(X, t, name, N, inc, Js, blocks=None, period=None):
    """N strided elements; the largest magnitude of each component has the given index"""
    fm = FM[t]
    w = fm.w
    nc = NC[t]
    comps = [repeat(lambda n: X.val('%s%d%s' % (name, n, 'ri'[c]), w, fm.hi(Js[c])), N, period) for c in range(nc)]
    for c in range(nc):
        for a, b in blocks or ((0, N),):
            X.group(w, comps[c][a:min(b, a + period) if period else b], fm.lo(Js[c]), fm.hi(Js[c]))
    init = {}
    for n in range(N):
        for c in range(nc):
            init[n * inc * nc + c] = comps[c][n]
    size = ((N - 1) * inc + 1) * nc if N else 0
    return comps, X.buf(name, w, size, init, ro=True)


def absv(X, w, v):
    return fp.fabs(X.E, w, v)


def h_sum(X, t, op, fold, N, inc, Js, start='zero', form=None, period=None):
    """vector sum / absolute sum"""
    nc = NC[t]
    fm = FM[t]
    if op == 'asum' and nc == 2:
        # both parts go to one real accumulator
        J = min(Js)
        comps = [repeat(lambda n: X.val('x%d%s' % (n, 'ri'[c]), fm.w, fm.hi(J)), N, period) for c in range(2)]
        X.group(fm.w, comps[0][:period] + comps[1][:period], fm.lo(J), fm.hi(J))
        init = {n * inc * 2 + c: comps[c][n] for n in range(N) for c in range(2)}
        V = X.buf('x', fm.w, ((N - 1) * inc + 1) * 2 if N else 0, init, ro=True)
        Js = (J,)
    else:
        comps, V = vector(X, t, 'x', N, inc, Js, period=period)
    r = BASE[t] if op == 'asum' else t
    Y = Acc(X, r, fold, 'Y', start, form)
    ms = [model(Y, c) for c in range(NC[r])]
    X.call('binnedBLAS_%s%s%s%s' % (r, 'b' if form is None else 'm', t, op), None, fold, N, V, inc, *Y.args())
    if N:
        if op == 'asum':
            terms = [[absv(X, fm.w, v) for c in comps for v in c]]
        else:
            terms = comps
        for c in range(NC[r]):
            ms[c].shift(Js[c], terms[c])
            for v in terms[c]:
                ms[c].add(v)
    expect_all(Y, ms, 'sum')
    Y.check_gaps()


def expect_all(Y, ms, label, e=0):
    for c, m in enumerate(ms):
        if m.I is None:
            Y.expect_zero('%s part %d (empty)' % (label, c), c, e)
        else:
            Y.expect('%s part %d' % (label, c), m.I, m.T, c, e)


def h_dot(X, t, op, fold, N, incx, incy, Js, start='zero', form=None, period=None):
    nc = NC[t]
    fm = FM[t]
    w = fm.w
    E = X.E
    xs = [[None] * N for _ in range(nc)]
    ys = [[None] * N for _ in range(nc)]
    terms = [[] for _ in range(nc)]
    J = min(Js)
    X.split(fm, J)
    for n in range(N):
        if period and n >= period:
            for c in range(nc):
                xs[c][n], ys[c][n] = xs[c][n - period], ys[c][n - period]
                k = len(terms[c])
                terms[c] += terms[c][k - period * (1 if nc == 1 else 2):][:1 if nc == 1 else 2]
            continue
        for c in range(nc):
            xs[c][n], ys[c][n] = X.pair('x%d%s' % (n, 'ri'[c]), 'y%d%s' % (n, 'ri'[c]), w)

        def pr(c, i, j, neg=False):
            v = X.product(w, xs[i][n], ys[j][n], fm.hi(Js[c]))
            terms[c].append(fp.fneg(E, w, v) if neg else v)
        if nc == 1:
            pr(0, 0, 0)
        elif op == 'dotu':
            pr(0, 0, 0), pr(0, 1, 1, True), pr(1, 0, 1), pr(1, 1, 0)
        else:
            pr(0, 0, 0), pr(0, 1, 1), pr(1, 0, 1), pr(1, 1, 0, True)
    for c in range(nc):
        X.group(w, terms[c], fm.lo(Js[c]), fm.hi(Js[c]))

    def mk(name, v, inc):
        return X.buf(name, w, ((N - 1) * inc + 1) * nc if N else 0, {n * inc * nc + c: v[c][n] for n in range(N) for c in range(nc)}, ro=True)
    U, V = mk('x', xs, incx), mk('y', ys, incy)
    Z = Acc(X, t, fold, 'Z', start, form)
    ms = [model(Z, c) for c in range(nc)]
    X.call('binnedBLAS_%s%s%s%s' % (t, 'b' if form is None else 'm', t, op), None, fold, N, U, incx, V, incy, *Z.args())
    if N:
        for c in range(nc):
            ms[c].shift(Js[c], terms[c])
            for v in terms[c]:
                ms[c].add(v)
    expect_all(Z, ms, 'dot product')
    Z.check_gaps()


def h_order(X, t, fold, js, perm, form=None):
    """adding the same numbers in two orders leaves the same accumulator"""
    nc = NC[t]
    Y = Acc(X, t, fold, 'Y', 'zero', form)
    Z = Acc(X, t, fold, 'Z', 'zero', form)
    xs = [scalar(X, t, 'x%d' % n, j) for n, j in enumerate(js)]
    f = 'binned_%s%sadd' % (t + ('b' if form is None else 'm'), t)
    for n in range(len(js)):
        X.call(f, None, fold, xs[n][1], *Y.args())
    for n in perm:
        X.call(f, None, fold, xs[n][1], *Z.args())
    for c in range(nc):
        for k in range(fold):
            X.eqlevel('order, part %d level %d' % (c, k), Y.fm, Y.pri(k, c), Y.car(k, c), Z.pri(k, c), Z.car(k, c))


def h_split(X, t, fold, js, cut, form=None):
    """two accumulators merged (either way round) equal one accumulator"""
    nc = NC[t]
    xs = [scalar(X, t, 'x%d' % n, j) for n, j in enumerate(js)]
    fb = t + ('b' if form is None else 'm')
    f = 'binned_%s%sadd' % (fb, t)
    W = Acc(X, t, fold, 'W', 'zero', form)
    for v in xs:
        X.call(f, None, fold, v[1], *W.args())
    for way in (0, 1):
        P = Acc(X, t, fold, 'P%d' % way, 'zero', form)
        Q = Acc(X, t, fold, 'Q%d' % way, 'zero', form)
        for n, v in enumerate(xs):
            X.call(f, None, fold, v[1], *(P if n < cut else Q).args())
        A, B = (P, Q) if way == 0 else (Q, P)
        X.call('binned_%s%sadd' % (fb, fb), None, fold, *(A.args() + B.args()))
        for c in range(nc):
            for k in range(fold):
                X.eqlevel('split, part %d level %d' % (c, k), W.fm, W.pri(k, c), W.car(k, c), B.pri(k, c), B.car(k, c))
