"""Harnesses: the summation error bound."""
import math
from fractions import Fraction
from . import fp
from .fp import pow2, add_exact, scale_exact
from .spec import FM, NC, BASE, as_aff
from .acc import Acc
from .families import repeat, absv
from .families3 import convert


def constant(fm):
    """the factor of |S| in the documented bound, to 60 bits"""
    eps = Fraction(1, 1 << (fm.p - 1))
    r = Fraction(math.isqrt((1 << 200) * eps.numerator // eps.denominator), 1 << 100)
    return 7 * eps / (1 - 6 * r - 7 * eps)


def bound(X, t, fold, N, x, s):
    return X.call('binned_%sbbound' % t, t, fold, N, (t, x), (t, s))


def h_bound(X, t, fold, N, J, pos=0, op='sum', period=None, neg=False):
    """the converted sum of N numbers, the one at pos the largest in magnitude, is within the bound of their sum"""
    fm = FM[t]
    w = fm.w

    def number(k):
        if k == pos:
            v = X.val('x%d' % k, w, fm.hi(J), fm.lo(J), nonneg=True)
            return fp.fneg(X.E, w, v) if neg else v
        return X.val('x%d' % k, w, max(fm.lo(J) or 0, fm.gmin + 1) if X.conc else fm.hi(J))
    xs = repeat(number, N, period)
    X.group(w, xs[:period], fm.lo(J), fm.hi(J))
    top = scale_exact(as_aff(w, xs[pos]), -1 if neg else 1)
    for k, v in enumerate(xs[:period]):
        if k != pos:
            X.limit(add_exact(top, as_aff(w, v), sub=True), lo=0)
            X.limit(add_exact(top, as_aff(w, v)), lo=0)
    terms = [as_aff(w, v) for v in (xs if op == 'sum' else [absv(X, w, v) for v in xs])]
    T = X.exact_sum(terms)
    if J == 0:
        F = fp.FMT[w]
        X.limit(T, -pow2(F['emax'] - 1), pow2(F['emax'] - 1))
    V = X.buf('x', w, N, dict(enumerate(xs)), ro=True)
    Y = Acc(X, t, fold, 'Y', 'zero', None)
    if X.sym:
        X.E.inexact = 'uf'      # the bins are exact: only the conversion and the bound are rounded
    X.call('binnedBLAS_%sb%s%s' % (t, t, op), None, fold, N, V, 1, *Y.args())
    if X.sym:
        X.E.inexact = 'err'
    S, = convert(X, t, fold, Y)
    B = bound(X, t, fold, N, xs[pos], S)
    X.within('error of the sum', w, S, T, B)


def h_bound_value(X, t, fold, N, ex, es, nx=False, ns=False):
    """the bound is the documented expression, up to the rounding of its own evaluation"""
    fm = FM[t]
    w = fm.w
    x = X.val('X', w, ex + 1, ex, nonneg=True) if ex is not None else 0
    s = X.val('S', w, es + 1, es, nonneg=True) if es is not None else 0
    fx, fs = as_aff(w, x), as_aff(w, s)
    B = bound(X, t, fold, N, fp.fneg(X.E, w, x) if nx else x, fp.fneg(X.E, w, s) if ns else s)
    least = pow2(fm.gmin + fm.p - 2)
    unit = pow2((1 - fold) * fm.W)
    a = scale_exact(fx, unit * N) if ex is not None and pow2(ex) * unit >= least else least * N
    X.near('bound', w, B, X.exact_sum([a, scale_exact(fs, constant(fm))]), Fraction(8, 1 << fm.p), (N + 2) * pow2(fm.gmin))
