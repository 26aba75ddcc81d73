"""What the library is supposed to compute, written independently of its code.

Bins of a format: bin i accumulates on the grid ulp(i) = 2^(emax-W(i+1)+1 ...) ; see Fmt.  The exact contents of a bin is
the sum of the slices of the numbers added; the canonical form of an accumulator is determined by these sums."""
from fractions import Fraction
from . import fp
from .fp import Aff, const_aff, add_exact, scale_exact, pow2, p2


class Fmt:
    def __init__(self, c):
        self.c = c
        self.w = {'d': 64, 's': 32}[c]
        F = fp.FMT[self.w]
        self.size = self.w // 8
        self.p = F['p']
        self.emax = F['emax']
        self.gmin = F['gmin']
        self.W = {'d': 40, 's': 13}[c]
        self.maxindex = {'d': 51, 's': 20}[c]
        self.maxfold = self.maxindex + 1
        self.endurance = 1 << (self.p - self.W - 2)
        self.comp = self.true_ufp(0) - (self.emax - 1)     # index-0 bin is stored scaled by 2^-comp

    def true_ufp(self, i):
        return self.emax + self.p - self.W - self.W * min(i, self.maxindex)

    def ufp(self, i):
        """exponent of the unit in the first place of the stored primary part of bin i"""
        return self.emax - 1 if i <= 0 else self.true_ufp(i)

    def ulp(self, i):
        return self.ufp(i) - (self.p - 1)

    def hi(self, i):
        """numbers of index i are below 2^hi(i) in magnitude"""
        return self.emax - self.W * i

    def lo(self, i):
        """numbers of index i are at least 2^lo(i) in magnitude (None: no lower limit)"""
        return None if i >= self.maxindex else self.emax - self.W * (i + 1)

    def index(self, v):
        """index of an exact value"""
        if v == 0:
            return self.maxindex
        v = abs(Fraction(v))
        e = v.numerator.bit_length() - v.denominator.bit_length()
        if v >= pow2(e):
            e += 1
        # 2^(e-1) <= v < 2^e
        return min((self.emax - e) // self.W, self.maxindex)

    def base(self, i):
        return Fraction(3, 2) * pow2(self.ufp(i))


D, S = Fmt('d'), Fmt('s')
FM = {'d': D, 's': S, 'z': D, 'c': S}
BASE = {'d': 'd', 's': 's', 'z': 'd', 'c': 's'}
NC = {'d': 1, 's': 1, 'z': 2, 'c': 2}


def as_aff(w, v):
    """bit pattern or value -> exact form (finite only)"""
    if isinstance(v, int):
        k, s, f = fp.dec(w, v)
        if k != 'fin':
            raise ValueError('not finite')
        return const_aff(w, fp.norm(f))
    return v


def slices(E, fm, I, fold, x):
    """exact contribution of the finite value x to the stored bins I, I+1, ... (list of exact forms)

    x needs no slice above its own index, so any window start at or above it gives the same contributions."""
    w = fm.w
    x = as_aff(w, x)
    out = []
    r = x
    for k in range(fold):
        b = I + k
        if b == 0:
            if not r.terms:
                v0 = as_aff(w, fp.enc(w, Fraction(r.const) * pow2(-fm.comp)))
            else:
                v0 = as_aff(w, fp.fmul(E, w, r, fp.enc(w, pow2(-fm.comp))))
            s = fp.slice_val(E, fm.ulp(0), v0)
            out.append(s)
            if k < fold - 1:
                r = rem(E, w, r, scale_exact(s, pow2(fm.comp)), fm.ulp(0) + fm.comp)
        else:
            s = fp.slice_val(E, fm.ulp(b), r)
            out.append(s)
            if k < fold - 1:
                r = rem(E, w, r, s, fm.ulp(b))
    return out


def rem(E, w, r, s, u):
    d = add_exact(r, s, sub=True)
    if d.terms:
        h = p2(u - 1)
        if s.terms:
            d.setr(-h, h)
        elif r.fixed:
            c = int(s.const * fp.ONE)
            d.setr(r.lo - c, r.hi - c)
    return d


def canonical(fm, i, total):
    """(primary bits, carry bits) of bin i holding the exact total"""
    q = pow2(fm.ufp(i) - 2)
    c = (Fraction(total) / q).__floor__()
    p = fm.base(i) + total - c * q
    return fp.enc(fm.w, p), fp.enc(fm.w, Fraction(c))
