"""Harnesses: scaled sums of squares, scaling factors, combining scaled accumulators, norms."""
from fractions import Fraction
from . import fp, spec
from .fp import pow2, scale_exact, const_aff, add_exact
from .spec import FM, NC, BASE, as_aff
from .acc import Acc, Model, model
from .engine import Unsupported, Infeasible
from .families import repeat, expect_all
from .families2 import mb
from .families3 import convert


def scale_exp(fm, v):
    """exponent of the scaling factor for a largest magnitude v: a multiple of the bin width just below it, in [2^-(W-1), 2^W) of it; limited below"""
    W = fm.W
    bias = fm.emax - 2
    e = 0 if v == 0 else v.numerator.bit_length() - v.denominator.bit_length()
    if v:
        if v < pow2(e):
            e -= 1
        # 2^e <= v < 2^(e+1): biased exponent
        e = max(0, e + bias + 1)
    e = max(e, W)
    q = e - bias - 1
    r = abs(q) % W * (1 if q >= 0 else -1)
    return e - r - bias - 1


def below(w, v):
    """largest number below v"""
    return fp.dec(w, fp.enc(w, v) - 1)[2]


def classes(fm, e, f):
    """parts of [2^e, 2^f) on which neither the scaling factor nor the index of the square of the scaled value changes: (least, largest, scale, index)"""
    w = fm.w
    out = []
    cuts = [pow2(k) for k in range(e, f)]
    for k in range(e, f):
        # the smallest m in [1,2) whose square rounds to 2 or more
        a, b = Fraction(1), Fraction(2)
        while fp.enc(w, b) - fp.enc(w, a) > 1:
            m = fp.dec(w, (fp.enc(w, a) + fp.enc(w, b)) // 2)[2]
            if fp.dec(w, fp.enc(w, m * m))[2] >= 2:
                b = m
            else:
                a = m
        cuts.append(b * pow2(k))
    cuts.sort()
    for i, c in enumerate(cuts):
        hi = below(w, cuts[i + 1] if i + 1 < len(cuts) else pow2(f))
        s = scale_exp(fm, c)
        y = fp.dec(w, fp.enc(w, (c / pow2(s)) ** 2))[2]
        J = fm.index(y)
        assert s == scale_exp(fm, hi)
        if out and out[-1][2:] == (s, J):
            out[-1] = (out[-1][0], hi, s, J)
        else:
            out.append((c, hi, s, J))
    return out


class Scaled(Model):
    """an accumulator with a scaling factor 2^s (s None: no scale yet)"""

    def __init__(self, m, s):
        Model.__init__(self, m.X, m.fm, m.fold, m.I, m.T)
        self.s = s
        self.top = None         # bins from this index on may hold what does not fit there

    def copy(self):
        r = Scaled(self, self.s)
        r.top = self.top
        return r

    def rescale(self, s):
        """contents for the larger scaling factor 2^s"""
        if self.s is None or s == self.s:
            self.s = s
            return
        d, r = divmod(2 * (s - self.s), self.fm.W)
        assert r == 0
        self.s = s
        m = self.fm.maxindex
        if self.I is None:
            self.I, self.T = m, [const_aff(self.fm.w, 0)] * self.fold
            return
        if d * self.fm.W >= self.fm.emax:
            # the square of the ratio is not representable: everything falls below the window
            self.top = min(self.top or 99999, self.I + d)
            self.I, self.T = m, [const_aff(self.fm.w, 0)] * self.fold
            return
        if self.I + d + self.fold - 1 > m:
            # what falls below the last bin must not come back into the window
            self.top = min(self.top or 99999, m + 1)
        c = pow2(-self.fm.W * d)
        self.T = [scale_exact(as_aff(self.fm.w, t), c) if self.I + k + d <= m else const_aff(self.fm.w, 0) for k, t in enumerate(self.T)]
        self.I += d

    def check(self):
        if self.top is not None and self.I is not None and self.I + self.fold - 1 >= self.top:
            self.outside()

    def outside(self):
        if self.X.conc:
            raise Infeasible()
        raise Unsupported('the window reaches below the last bin')

    def shift_to(self, J):
        if self.I is not None and self.I > self.fm.maxindex:
            if J + self.fold - 1 >= self.fm.maxindex:
                self.outside()
            self.I, self.T = self.fm.maxindex, [const_aff(self.fm.w, 0)] * self.fold
        Model.shift_to(self, J)


def square(X, w, v, s):
    y = fp.fmul(X.E, w, v, fp.enc(w, pow2(-s)))
    return fp.fmul(X.E, w, y, y)


def h_ssq(X, t, fold, N, inc, cls, start='zero', scaleY=None, form=None, block=None, period=None, side=0):
    """scaled sum of squares; cls: for each block of the vector (least, largest, scale, index) of its largest magnitude, which is in part `side`"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    r = BASE[t]
    block = block or max(N, 1)
    comps = [[] for _ in range(nc)]
    nb = 0
    for b in range(0, N, block):
        n = min(block, N - b)
        lo, hi, s, J = cls[nb]
        for c in range(nc):
            top = hi if c == side else below(w, lo) if lo is not None else hi
            vs = repeat(lambda k: X.val('x%d%s' % (b + k, 'ri'[c]), w, top), n, period)
            if c == side and lo is not None:
                X.group(w, vs[:period], lo, None)
            comps[c] += vs
        nb += 1
    V = X.buf('x', w, ((N - 1) * inc + 1) * nc if N else 0, {n * inc * nc + c: comps[c][n] for n in range(N) for c in range(nc)}, ro=True)
    Y = Acc(X, r, fold, 'Y', start, form)
    sy = 0 if scaleY is None else fp.enc(w, pow2(scaleY))
    got = X.call('binnedBLAS_%s%s%sssq' % (r, mb(form), t), r, fold, N, V, inc, (r, sy), *Y.args())
    y = Scaled(model(Y), scaleY)
    # the data go straight to the accumulator, or (complex data) through one accumulator per part
    ms = [y] if nc == 1 else [Scaled(Model(X, fm, fold), None) for _ in range(2)]
    nb = 0
    for b in range(0, N, block):
        n = min(block, N - b)
        lo, hi, s, J = cls[nb]
        if X.conc:
            a = max(abs(fp.dec(w, v)[2]) for c in comps for v in c[b:b + n])
            s = scale_exp(fm, a)
        for c, m in enumerate(ms):
            if m.s is None or s > m.s:
                m.rescale(s)
            if X.conc:
                z = a / pow2(m.s)
                J = fm.index(fp.dec(w, fp.enc(w, z * z))[2])
            j = J
            if not X.conc and m.s != s:
                z = lo / pow2(m.s)
                j = fm.index(fp.dec(w, fp.enc(w, z * z))[2])
                z = hi / pow2(m.s)
                if j != fm.index(fp.dec(w, fp.enc(w, z * z))[2]):
                    raise Unsupported('index not determined')
            m.shift_to(j)
            for v in comps[c][b:b + n]:
                Model.add(m, square(X, w, v, m.s), j)
        nb += 1
    if nc == 2:
        for m in ms:
            merge(y, m)
    if y.I is None:
        Y.expect_zero('empty')
    else:
        y.check()
        Y.expect('sum of squares', y.I, y.T)
    X.same_bits('scaling factor', w, got, 0 if y.s is None else fp.enc(w, pow2(y.s)))
    Y.check_gaps()


def merge(y, x):
    """x is merged into y, both brought to the larger scaling factor"""
    x = x.copy()
    if y.s is None or x.s is None:
        if x.s is None:
            x.s = y.s
        y.s = x.s
    elif x.s > y.s:
        y.rescale(x.s)
    elif x.s < y.s:
        x.rescale(y.s)
    for m in (x, y):
        if m.I is not None and m.I > m.fm.maxindex:
            m.I, m.T = m.fm.maxindex, [const_aff(m.fm.w, 0)] * m.fold
    y.top = min([k for k in (y.top, x.top) if k is not None], default=None)
    y.merge(x)


def special(acc, c=0):
    I, tot, vals = acc.start[c]
    return I is None and vals is not None and bool(vals[0][0])


def h_rescale(X, t, fold, start, sx, sy, form):
    """contents stored for the scaling factor 2^sy are stored for 2^sx"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    Y = Acc(X, t, fold, 'Y', start, form)
    b = BASE[t]
    enc = lambda s: (b, 0 if s is None else fp.enc(w, pow2(s)))
    X.call('binned_%s%srescale' % (mb(form) and t + mb(form), b), None, fold, enc(sx), enc(sy), *Y.args())
    for c in range(nc):
        if special(Y, c):
            # infinities and NaN stay
            X.eq('first word of part %d' % c, w, Y.pri(0, c), Y.start[c][2][0][0])
            continue
        m = Scaled(model(Y, c), sy)
        if sx is not None and sy is not None:
            m.rescale(sx)
        m.check()
        if m.I is None:
            Y.expect_zero('part %d' % c, c)
        else:
            Y.expect('part %d' % c, m.I, m.T, c)
    Y.check_gaps()


def h_addsq(X, t, fold, sx, kx, sy, ky, form=None):
    """adding scaled accumulators: contents sx with scaling factor 2^kx, contents sy with 2^ky"""
    from .families5 import Part, join, same_class
    fm = FM[t]
    w = fm.w
    A = Acc(X, t, fold, 'X', sx, form, ro=True)
    B = Acc(X, t, fold, 'Y', sy, form)
    enc = lambda s: (t, 0 if s is None else fp.enc(w, pow2(s)))
    p = t + mb(form)
    got = X.call('binned_%s%saddsq' % (p, p), t, fold, *([enc(kx)] + A.args() + [enc(ky)] + B.args()))
    k = max([s for s in (kx, ky) if s is not None], default=None)
    X.same_bits('scaling factor', w, got, enc(k)[1])
    if special(A) or special(B):
        X.ensure('first word', same_class(X, w, B.pri(0), join(Part(A, 0).c, Part(B, 0).c)))
    else:
        x, y = Scaled(model(A), kx), Scaled(model(B), ky)
        if k is not None:
            merge(y, x)
        else:
            y.merge(x)
        y.check()
        if y.I is None:
            B.expect_zero('sum')
        else:
            B.expect('sum', y.I, y.T)
    if not X.sym:
        A.expect_same('first argument')
    B.check_gaps()


def h_nrm2(X, t, fold, N, inc, cls, period=None, side=0):
    """one-call norm = scaling factor times the square root of the converted sum of squares; fold None: default fold"""
    from .families4 import DEFAULTFOLD
    fm, nc = FM[t], NC[t]
    w = fm.w
    E = X.E
    r = BASE[t]
    lo, hi = cls[:2] if cls else (None, None)
    comps = []
    for c in range(nc):
        top = hi if c == side else below(w, lo) if N else None
        comps.append(repeat(lambda k: X.val('x%d%s' % (k, 'ri'[c]), w, top), N, period))
    if N:
        X.group(w, comps[side], lo, None)
    V = X.buf('x', w, ((N - 1) * inc + 1) * nc if N else 0, {n * inc * nc + c: comps[c][n] for n in range(N) for c in range(nc)}, ro=True)
    pre = '' if fold is None else 'r'
    name = {'d': 'dnrm2', 's': 'snrm2', 'z': 'dznrm2', 'c': 'scnrm2'}[t]
    got = X.call('reproBLAS_%s%s' % (pre, name), r, *(([] if fold is None else [fold]) + [N, V, inc]))
    f = DEFAULTFOLD if fold is None else fold
    A = Acc(X, r, f, 'A', 'zero')
    scl = X.call('binnedBLAS_%sb%sssq' % (r, t), r, f, N, V, inc, (r, 0), *A.args())
    v = convert(X, r, f, A)[0]
    if w == 32:
        z = fp.fmul(E, 64, fp.fpext(E, scl), fp.sqrt(E, 64, fp.fpext(E, v)))
        e = fp.fptrunc(E, z)
    else:
        e = fp.fmul(E, 64, scl, fp.sqrt(E, 64, v))
    X.eq('norm', w, got, e)
    if not N:
        X.eq('norm of no data', w, got, 0)


def h_vssq(X, t, fold, N, inc, cls, tokens, start='zero', scaleY=None, form=None, period=None):
    """sums of squares with infinities and NaN at given (position, part, token); the other elements have largest magnitudes as in cls"""
    from .families5 import Part, join, same_class, token, cls as kind
    fm, nc = FM[t], NC[t]
    w = fm.w
    r = BASE[t]
    lo, hi, s, J = cls
    comps = [repeat(lambda n: X.val('x%d%s' % (n, 'ri'[c]), w, hi, lo), N, period) for c in range(nc)]
    for n, c, k in tokens:
        comps[c][n] = token(w, k)
    V = X.buf('x', w, ((N - 1) * inc + 1) * nc if N else 0, {n * inc * nc + c: comps[c][n] for n in range(N) for c in range(nc)}, ro=True)
    Y = Acc(X, r, fold, 'Y', start, form)
    k = Part(Y, 0).c
    for c in range(nc):
        for v in comps[c]:
            d = kind(w, v)
            k = join(k, 'inf' if d == '-inf' else d)
    sy = 0 if scaleY is None else fp.enc(w, pow2(scaleY))
    got = X.call('binnedBLAS_%s%s%sssq' % (r, mb(form), t), r, fold, N, V, inc, (r, sy), *Y.args())
    assert k != 'fin'
    X.ensure('first word is %s' % k, same_class(X, w, Y.pri(0), k))
    v = convert(X, r, fold, Y)[0]
    X.ensure('conversion is %s' % k, same_class(X, w, v, k))
    if isinstance(got, int):
        X.ensure('the scaling factor is positive and finite', 0 < got < fp.inf(w, 0))
    else:
        X.ensure('the scaling factor is positive and finite', fp.classes(X.E, w, got) == {'+'})
    Y.check_gaps()
