"""Harnesses: conversion, special values, scaled sums of squares."""
from fractions import Fraction
import z3
from . import fp, spec
from .fp import pow2, Aff, scale_exact
from .spec import FM, NC, BASE, as_aff
from .acc import Acc, Model, model, total
from .families import scalar, expect_all, vector
from .families2 import mb
from .ir import UNDEF


def convert(X, t, fold, Y):
    """the converted value of each part"""
    if NC[t] == 1:
        return [X.call('binned_%s%s%sconv' % (t, t, mb(Y.form)), t, fold, *Y.args())]
    o = X.buf('conv', FM[t].w, 2)
    X.call('binned_%s%s%sconv_sub' % (t, t, mb(Y.form)), None, fold, *(Y.args() + [o]))
    return [X.get(o, c) for c in range(2)]


# relative error of a conversion: a few units of the last place in double precision; single precision rounds a double once
REL = {64: lambda k: Fraction(k, 1 << 52), 32: lambda k: Fraction(1, 1 << 23)}


def exact(X, fm, I, tot):
    """the number a finite accumulator stands for"""
    f = pow2(fm.comp) if I == 0 else 1
    return X.exact_sum([scale_exact(tot[0], f) if isinstance(tot[0], Aff) else tot[0] * f] + list(tot[1:]))


def h_out(X, t, fold, start, form=None, over=None, rel=7):
    """conversion of any canonical accumulator; over: None (exact value within the range) or the sign of a value beyond it"""
    fm = FM[t]
    F = fp.FMT[fm.w]
    Y = Acc(X, t, fold, 'Y', list(start), form, ro=True)
    top = pow2(F['emax'])
    edge = top * (1 - Fraction(1, 1 << (F['p'] - 9)))
    ts = []
    for c in range(NC[t]):
        I, tot, vals = Y.start[c]
        T = exact(X, fm, I, tot)
        ts.append(T)
        if over is None:
            X.limit(T, -edge, edge)
        elif over > 0:
            X.limit(T, lo=2 * top - edge)
        else:
            X.limit(T, hi=edge - 2 * top)
    got = convert(X, t, fold, Y)
    for c in range(NC[t]):
        if over is None:
            X.near('conversion part %d' % c, fm.w, got[c], ts[c], REL[fm.w](rel))
        else:
            X.eq('conversion part %d beyond the range' % c, fm.w, got[c], fp.inf(fm.w, int(over < 0)))


def h_in(X, t, fold, js, form=None, raw=True):
    """storing a number: whatever was there is gone, the number is there as if added to an empty accumulator"""
    nc = NC[t]
    fm = FM[t]
    pre = None
    if raw:
        v = [X.anyval('y%d' % i, fm.w) for i in range(2 * fold * nc)]
        pre = [('raw', v[c::2 * nc], v[nc + c::2 * nc]) for c in range(nc)]
    Y = Acc(X, t, fold, 'Y', pre, form)
    vs, arg = [], None
    for c in range(nc):
        vs.append(0 if js[c] is None else X.val('x%s' % 'ri'[c], fm.w, fm.hi(js[c]), fm.lo(js[c])))
    arg = (BASE[t], vs[0]) if nc == 1 else X.buf('x', fm.w, 2, vs, ro=True)
    X.call('binned_%s%s%sconv' % (t, mb(form), t), None, fold, arg, *Y.args())
    for c in range(nc):
        if js[c] is None:
            # adding zero to an empty accumulator
            Z = Acc(X, t, fold, 'Z%d' % c, 'zero', None)
            X.call('binned_%sb%sadd' % (t, t), None, fold, arg, *Z.args())
            for k in range(fold):
                X.eq('stored zero, part %d' % c, fm.w, Y.pri(k, c), Z.pri(k, c))
                X.eq('stored zero, part %d' % c, fm.w, Y.car(k, c), Z.car(k, c))
            continue
        m = Model(X, fm, fold)
        m.add(vs[c], js[c])
        Y.expect('stored part %d' % c, m.I, m.T, c)
    Y.check_gaps()


def h_round_trip(X, t, fold, es, form=None, tail=False):
    """a number with leading bit 2^e (None: zero) comes back unchanged; the number has no bits below the unit of the last bin,
    or, with tail, below the unit of the last level of its window (the difference is then at most that unit)"""
    nc = NC[t]
    fm = FM[t]
    Y = Acc(X, t, fold, 'Y', None, form)
    vs, unit = [], []
    for c in range(nc):
        e = es[c]
        if e is None:
            vs.append(0)
            unit.append(0)
            continue
        u = window_unit(fm, e, fold)
        g = max(fm.gmin, e - fm.p + 1)
        unit.append(pow2(u) if u > g and tail else 0)
        vs.append(X.val('x%s' % 'ri'[c], fm.w, e + 1, e, g=g if tail else max(g, u)))
    arg = (BASE[t], vs[0]) if nc == 1 else X.buf('x', fm.w, 2, vs, ro=True)
    X.call('binned_%s%s%sconv' % (t, mb(form), t), None, fold, arg, *Y.args())
    got = convert(X, t, fold, Y)
    for c in range(nc):
        X.near('round trip of part %d' % c, fm.w, got[c], exact_of(fm.w, vs[c]), 0, unit[c])


def window_unit(fm, e, fold):
    """exponent of the smallest unit held by the window of a number with leading bit 2^e"""
    return fm.ulp(min(fm.maxindex, fm.index(pow2(e)) + fold - 1))


def exact_of(w, v):
    return as_aff(w, v)


def h_empty_out(X, t, fold, form=None):
    """an empty accumulator converts to zero"""
    nc = NC[t]
    Y = Acc(X, t, fold, 'Y', ['zero'] * nc, form, ro=True)
    got = convert(X, t, fold, Y)
    for c in range(nc):
        X.eq('conversion of the empty part %d' % c, FM[t].w, got[c], 0)
