"""Harnesses: infinities and NaN."""
from fractions import Fraction
from . import fp, spec
from .fp import pow2
from .spec import FM, NC, BASE
from .acc import Acc, Model, model
from .families import absv, repeat
from .families2 import mb
from .families3 import convert


def token(w, k):
    F = fp.FMT[w]
    return {'inf': fp.inf(w, 0), '-inf': fp.inf(w, 1), 'nan': fp.inf(w, 0) | 1 << (F['mb'] - 1), '-nan': fp.inf(w, 1) | 1 << (F['mb'] - 1) | 5,
            'big': fp.enc(w, pow2(F['emax'] * 3 // 4)), '-big': fp.enc(w, -pow2(F['emax'] * 3 // 4)), 'one': fp.enc(w, Fraction(1)), '-one': fp.enc(w, Fraction(-1)), 'zero': 0, '-zero': 1 << (w - 1),
            'top': (fp.inf(w, 0) - 1), '-top': (fp.inf(w, 1) - 1)}[k]


def cls(w, v):
    if not isinstance(v, int):
        return 'fin'
    k, s, _ = fp.dec(w, v)
    return 'fin' if k == 'fin' else 'nan' if k == 'nan' else '-inf' if s else 'inf'


def join(a, b):
    if a == 'fin':
        return b
    if b == 'fin' or a == b:
        return a
    return 'nan'


class Part:
    """one component: its class, and its contents while finite"""

    def __init__(self, acc, c):
        I, tot, vals = acc.start[c]
        self.c = 'fin'
        self.m = None
        if I is None and vals is not None and vals[0][0]:
            self.c = cls(acc.fm.w, vals[0][0])
        else:
            self.m = model(acc, c)

    def add(self, w, v, J):
        k = cls(w, v)
        self.c = join(self.c, k)
        if self.m is not None and k == 'fin' and self.c == 'fin':
            self.m.add(v, J)


def check(X, t, fold, Y, parts, label):
    w = FM[t].w
    for c, p in enumerate(parts):
        if p.c == 'fin':
            if p.m.I is None:
                Y.expect_zero('%s part %d' % (label, c), c)
            else:
                Y.expect('%s part %d' % (label, c), p.m.I, p.m.T, c)
        else:
            X.ensure('%s: first word of part %d is %s' % (label, c, p.c), same_class(X, w, Y.pri(0, c), p.c))
    if all(p.c != 'fin' for p in parts):
        got = convert(X, t, fold, Y)
        for c, p in enumerate(parts):
            X.ensure('%s: conversion of part %d is %s' % (label, c, p.c), same_class(X, w, got[c], p.c))
    Y.check_gaps()


def same_class(X, w, v, k):
    if isinstance(v, int):
        return cls(w, v) == k
    return fp.classes(X.E, w, v) == {k}


def h_steps(X, t, fold, start, steps, form=None):
    """additions and merges; steps: ('add', token or index per part) or ('merge', state per part)"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    Y = Acc(X, t, fold, 'Y', list(start), form)
    parts = [Part(Y, c) for c in range(nc)]
    for n, (what, args) in enumerate(steps):
        if what == 'add':
            vs = [token(w, a) if isinstance(a, str) else X.val('x%d%s' % (n, 'ri'[c]), w, fm.hi(a), fm.lo(a)) for c, a in enumerate(args)]
            X.call('binned_%s%s%sadd' % (t, mb(form), t), None, fold, (BASE[t], vs[0]) if nc == 1 else X.buf('x%d' % n, w, 2, vs, ro=True), *Y.args())
            for c in range(nc):
                a = args[c]
                parts[c].add(w, vs[c], None if isinstance(a, str) else a)
        else:
            Z = Acc(X, t, fold, 'Z%d' % n, list(args), form, ro=True)
            p = t + mb(form)
            X.call('binned_%s%sadd' % (p, p), None, fold, *(Z.args() + Y.args()))
            for c in range(nc):
                q = Part(Z, c)
                parts[c].c = join(parts[c].c, q.c)
                if parts[c].c == 'fin':
                    parts[c].m.merge(q.m)
    check(X, t, fold, Y, parts, 'after %s' % [s[0] for s in steps])


def h_vec(X, t, op, fold, N, inc, J, special, start, form=None, period=None):
    """vector sums with infinities and NaN at given (position, part, token); the other elements are any numbers whose index is J (the first `period` of them over and over)"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    cs = [repeat(lambda n: X.val('x%d%s' % (n, 'ri'[c]), w, fm.hi(J), fm.lo(J)), N, period) for c in range(nc)]
    for n, c, k in special:
        cs[c][n] = token(w, k)
    V = X.buf('x', w, ((N - 1) * inc + 1) * nc if N else 0, {n * inc * nc + c: cs[c][n] for n in range(N) for c in range(nc)}, ro=True)
    r = BASE[t] if op == 'asum' else t
    Y = Acc(X, r, fold, 'Y', list(start), form)
    parts = [Part(Y, c) for c in range(NC[r])]
    X.call('binnedBLAS_%s%s%s%s' % (r, mb(form), t, op), None, fold, N, V, inc, *Y.args())
    for c in range(nc):
        for v in cs[c]:
            parts[c if NC[r] == nc else 0].add(w, absv(X, w, v) if op == 'asum' else v, J)
    check(X, r, fold, Y, parts, op)


def h_vdot(X, t, op, fold, N, incx, incy, J, special, start, form=None):
    """dot products with given elements: special: {position: (tokens of x, tokens of y)}"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    E = X.E
    xs, ys = [[None] * N for _ in range(nc)], [[None] * N for _ in range(nc)]
    terms = [[] for _ in range(nc)]
    X.split(fm, J)
    for n in range(N):
        if n in special:
            a, b = special[n]
            for c in range(nc):
                xs[c][n], ys[c][n] = token(w, a[c]), token(w, b[c])
        else:
            for c in range(nc):
                xs[c][n], ys[c][n] = X.pair('x%d%s' % (n, 'ri'[c]), 'y%d%s' % (n, 'ri'[c]), w)

        def pr(c, i, j, neg=False):
            v = fp.fmul(E, w, xs[i][n], ys[j][n]) if n in special else X.product(w, xs[i][n], ys[j][n], fm.hi(J), fm.lo(J))
            terms[c].append(fp.fneg(E, w, v) if neg else v)
        if nc == 1:
            pr(0, 0, 0)
        elif op == 'dotu':
            pr(0, 0, 0), pr(0, 1, 1, True), pr(1, 0, 1), pr(1, 1, 0)
        else:
            pr(0, 0, 0), pr(0, 1, 1), pr(1, 0, 1), pr(1, 1, 0, True)

    def mk(name, v, inc):
        return X.buf(name, w, ((N - 1) * inc + 1) * nc if N else 0, {n * inc * nc + c: v[c][n] for n in range(N) for c in range(nc)}, ro=True)
    U, V = mk('x', xs, incx), mk('y', ys, incy)
    Z = Acc(X, t, fold, 'Z', list(start), form)
    parts = [Part(Z, c) for c in range(nc)]
    X.call('binnedBLAS_%s%s%s%s' % (t, mb(form), t, op), None, fold, N, U, incx, V, incy, *Z.args())
    for c in range(nc):
        for v in terms[c]:
            parts[c].add(w, v, None if isinstance(v, int) else J)
    check(X, t, fold, Z, parts, op)
