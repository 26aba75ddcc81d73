"""Accumulators in a harness: layout, starting states, expected states."""
from fractions import Fraction
from . import fp, spec
from .fp import Aff, const_aff, add_exact, scale_exact, pow2, p2
from .spec import FM, NC, BASE, as_aff
from .ir import UNDEF


def nm(t, op, pre='binned_'):
    return pre + op


class Acc:
    """an accumulator of type t; form None = packed, (sp, sc) = primary and carry vectors with these strides

    init per component: None (uninitialised), 'zero', ('at', I[, largest carry[, 'padded']]) arbitrary canonical contents at window start I,
    ('raw', pri list, car list)"""

    def __init__(self, X, t, fold, name, init, form=None, ro=False, count=1, step=1):
        self.X, self.t, self.fold, self.name, self.form = X, t, fold, name, form
        self.fm = FM[t]
        self.nc = NC[t]
        self.count, self.step = count, step
        fm = self.fm
        w = fm.w
        if not isinstance(init, list):
            init = [init] * (self.nc * count)
        self.init = init
        self.start = []
        pi, ci = {}, {}
        if form is None:
            self.sp = self.sc = 1
        else:
            self.sp, self.sc = form
        for e in range(count):
            for c in range(self.nc):
                st = init[e * self.nc + c]
                vals, tot, I = self.contents('%s%d%s' % (name, e, 'ri'[c]), st)
                self.start.append((I, tot, vals))
                if vals is None:
                    continue
                for k in range(fold):
                    b, i = self.pri_at(k, c, e)
                    (pi if b == 0 else ci)[i] = vals[k][0]
                    b, i = self.car_at(k, c, e)
                    (pi if b == 0 else ci)[i] = vals[k][1]
        if form is None:
            n = ((count - 1) * step + 1) * 2 * fold * self.nc if count else 0
            self.pbuf = self.cbuf = X.buf(name, w, n, pi, ro)
        else:
            # exactly as long as the strides require
            self.pbuf = X.buf(name + '.pri', w, ((fold - 1) * self.sp + 1) * self.nc if self.nc == 1 else (fold - 1) * self.sp * 2 + 2, pi, ro)
            self.cbuf = X.buf(name + '.car', w, ((fold - 1) * self.sc + 1) * self.nc if self.nc == 1 else (fold - 1) * self.sc * 2 + 2, ci, ro)

    def pri_at(self, k, c=0, e=0):
        if self.form is None:
            return 0, e * self.step * 2 * self.fold * self.nc + k * self.nc + c
        return 0, k * self.sp * self.nc + c

    def car_at(self, k, c=0, e=0):
        if self.form is None:
            return 0, e * self.step * 2 * self.fold * self.nc + (self.fold + k) * self.nc + c
        return 1, k * self.sc * self.nc + c

    def contents(self, name, st):
        X, fm, fold = self.X, self.fm, self.fold
        w = fm.w
        if st is None:
            return None, None, None
        if st == 'zero':
            return [(0, 0)] * fold, [Fraction(0)] * fold, None
        if st[0] == 'at':
            I = st[1]
            cm = st[2] if len(st) > 2 and st[2] is not None else 1 << (fm.p - 3)
            padded = len(st) > 3
            vals, tot = [], []
            for k in range(fold):
                b = I + k
                p = X.gridval('%s.p%d' % (name, k), w, fm.ulp(b), fm.base(b), fm.base(b) + pow2(fm.ufp(b) - 2) - pow2(fm.ulp(b)))
                # levels past the last bin repeat it and receive at most one ulp per addition
                c = X.intval('%s.c%d' % (name, k), w, -cm, cm) if b <= fm.maxindex or not padded else X.intval('%s.c%d' % (name, k), w, -1, 0)
                vals.append((p, c))
                tot.append(total(fm, b, p, c))
            return vals, tot, I
        if st[0] == 'wide':
            # primary parts anywhere in their binades (all levels, or those listed), as left by deposits that await renormalisation
            I = st[1]
            wide = st[2] if len(st) > 2 else range(fold)
            cm = 1 << (fm.p - 3)
            vals, tot = [], []
            for k in range(fold):
                b = I + k
                a, z = (fm.base(b), fm.base(b) + pow2(fm.ufp(b) - 2)) if k not in wide else (pow2(fm.ufp(b)), 2 * pow2(fm.ufp(b)))
                p = X.gridval('%s.p%d' % (name, k), w, fm.ulp(b), a, z - pow2(fm.ulp(b)))
                c = X.intval('%s.c%d' % (name, k), w, -cm, cm)
                vals.append((p, c))
                tot.append(total(fm, b, p, c))
            return vals, tot, I
        if st[0] == 'raw':
            return list(zip(st[1], st[2])), None, None
        if st[0] == 'special':
            # a non-finite accumulator: first primary part is the given bit pattern, the rest is what was there
            vals, tot, I = self.contents(name, ('at', st[2] if len(st) > 2 else 5))
            vals[0] = (st[1], vals[0][1])
            return vals, None, None
        raise ValueError(st)

    def args(self):
        if self.form is None:
            return [self.pbuf]
        return [self.pbuf, self.sp, self.cbuf, self.sc]

    def pargs(self):
        if self.form is None:
            return [self.pbuf]
        return [self.pbuf, self.sp]

    def pri(self, k, c=0, e=0):
        b, i = self.pri_at(k, c, e)
        return self.X.get(self.pbuf, i)

    def car(self, k, c=0, e=0):
        b, i = self.car_at(k, c, e)
        return self.X.get(self.pbuf if b == 0 else self.cbuf, i)

    def values(self, c=0, e=0):
        return [(self.pri(k, c, e), self.car(k, c, e)) for k in range(self.fold)]

    def expect(self, label, I, totals, c=0, e=0):
        """finite state"""
        b, i = self.pri_at(0, c, e)
        cb, ci = self.car_at(0, c, e)
        st = self.nc
        self.X.state(label, self.fm, self.fold, I, totals, self.pbuf, i, self.sp * st, self.cbuf, ci, self.sc * st)

    def expect_same(self, label, c=0, e=0):
        """contents as at the start"""
        vals = self.start[e * self.nc + c][2]
        for k in range(self.fold):
            self.X.eq('%s primary %d' % (label, k), self.fm.w, self.pri(k, c, e), vals[k][0])
            self.X.eq('%s carry %d' % (label, k), self.fm.w, self.car(k, c, e), vals[k][1])

    def expect_zero(self, label, c=0, e=0):
        for k in range(self.fold):
            self.X.eq('%s primary %d' % (label, k), self.fm.w, self.pri(k, c, e), 0)
            self.X.eq('%s carry %d' % (label, k), self.fm.w, self.car(k, c, e), 0)

    def used(self):
        p, q = set(), set()
        for e in range(self.count):
            for c in range(self.nc):
                for k in range(self.fold):
                    b, i = self.pri_at(k, c, e)
                    p.add(i)
                    b, i = self.car_at(k, c, e)
                    (p if b == 0 else q).add(i)
        return p, q

    def check_gaps(self):
        p, q = self.used()
        self.X.untouched(self.pbuf, p)
        if self.form is not None:
            self.X.untouched(self.cbuf, q)


def total(fm, b, p, c):
    w = fm.w
    p, c = as_aff(w, p), as_aff(w, c)
    return add_exact(add_exact(p, const_aff(w, fp.norm(-fm.base(b)))), scale_exact(c, pow2(fm.ufp(b) - 2)))


class Model:
    """the mathematical accumulator of one component: window start and exact bin totals"""

    def __init__(self, X, fm, fold, I=None, totals=None):
        self.X, self.fm, self.fold, self.I = X, fm, fold, I
        self.T = list(totals) if totals is not None and I is not None else None

    def copy(self):
        return Model(self.X, self.fm, self.fold, self.I, self.T)

    def shift_to(self, J):
        if self.I is None:
            self.I = J
            self.T = [const_aff(self.fm.w, 0)] * self.fold
        elif J < self.I:
            d = self.I - J
            self.T = ([const_aff(self.fm.w, 0)] * d + self.T)[:self.fold]
            self.I = J

    def add(self, x, j=None):
        """add a finite value of index j (computed when the value is concrete)"""
        if isinstance(x, int):
            j = self.fm.index(fp.dec(self.fm.w, x)[2])
        if j is not None:
            self.shift_to(j)
        for k, s in enumerate(spec.slices(self.X.E, self.fm, self.I, self.fold, x)):
            self.T[k] = add_exact(as_aff(self.fm.w, self.T[k]) if isinstance(self.T[k], int) else self.T[k], s)

    def shift(self, J, vals):
        """make room for values whose largest magnitude has index J (computed when they are concrete)"""
        if all(isinstance(v, int) for v in vals):
            J = min(self.fm.index(fp.dec(self.fm.w, v)[2]) for v in vals)
        self.shift_to(J)

    def merge(self, o):
        if o.I is None:
            return
        if self.I is None:
            self.I, self.T = o.I, list(o.T)
            return
        J = min(self.I, o.I)
        a = o.copy()
        a.shift_to(J)
        self.shift_to(J)
        self.T = [add_exact(x, y) for x, y in zip(self.T, a.T)]


def model(acc, c=0, e=0):
    I, tot, vals = acc.start[e * acc.nc + c]
    return Model(acc.X, acc.fm, acc.fold, I, tot)
