"""Rounding errors as linear real constraints.

In the 'err' reading of inexact operations every rounded result is r + e with a fresh error e.  For a format with p bits, r a
multiple of 2^g and gmin the exponent of its smallest subnormal:
    e = 0, or |r| >= 2^(p+g) (otherwise r is representable) and |e| <= 2^-p |r|     (normal range)
    |e| <= 2^(gmin-1) and |r| < 2^(gmin+p)                                           (subnormal range)
These disjunctions, the ranges of the inputs and the stated limits are what the solver decides over the reals; integrality
of the inputs is dropped (what a bin receives from a number is that number rounded to the grid of the bin), which only weakens what can be concluded."""
import time
from fractions import Fraction
import z3
from . import fp
from .fp import pow2


class LRA:
    def __init__(self, E):
        self.E = E
        self.v = {}
        self.cs = []
        self.todo = []

    def q(self, f):
        return z3.RealVal(str(f))

    def var(self, a):
        x = self.v.get(a)
        if x is None:
            x = self.v[a] = z3.Real('r%d' % len(self.v))
            r = fp.atom_rng(self.E, a)
            if r is not None:
                self.cs.append(z3.And(x >= self.q(Fraction(r[0], fp.ONE)), x <= self.q(Fraction(r[1], fp.ONE))))
            lo = self.E.fpst.least.get(a)
            if lo is not None:
                self.cs.append(z3.Or(x >= self.q(lo), x <= -self.q(lo)))
            if a.kind == 'err':
                w, r = a.w, a.args[0]
                F = fp.FMT[w]
                e = self.lin(r)
                g = max(r.g, F['gmin'] - 200) if r.g < fp.BIGG else F['gmin']
                u = self.q(pow2(-F['p']))
                big = self.q(pow2(F['p'] + g))
                alts = [x == 0,
                        z3.And(e >= big, x <= u * e, x >= -u * e),
                        z3.And(e <= -big, x <= -u * e, x >= u * e)]
                if r.g < F['gmin']:
                    h = self.q(pow2(F['gmin'] - 1))
                    L = self.q(pow2(F['gmin'] + F['p']))
                    alts.append(z3.And(x <= h, x >= -h, e < L, e > -L))
                self.cs.append(z3.Or(*alts))
            elif a.kind == 'lossy':
                f, k = a.args
                F = fp.FMT[a.w]
                e = self.lin(f) * self.q(pow2(k))
                h = self.q(pow2(F['gmin'] - 1))
                self.cs.append(z3.And(x - e <= h, e - x <= h))
            elif a.kind == 'abs':
                e = self.lin(a.args[0])
                self.cs.append(x == z3.If(e >= 0, e, -e))
            elif a.kind == 'S':
                # a slice is its argument rounded to the grid of the bin
                u, f = a.args
                e = self.lin(f)
                if fp.lies_on(self.E, u, f):
                    self.cs.append(x == e)
                else:
                    h = self.q(pow2(u - 1))
                    self.cs.append(z3.And(x - e <= h, e - x <= h))
                    # numbers and their coarser slices only: the distance of a number to the grid, on which its least magnitude lies
                    xs = [(b, c) for b, c in f.terms.items() if not (b.kind == 'S' and b.args[0] >= u and isinstance(c, int))]
                    if len(xs) == 1 and xs[0][1] in (1, -1) and f.const % pow2(u) == 0:
                        lo = self.E.fpst.least.get(xs[0][0])
                        b = xs[0][0]
                        if lo is not None and b.kind == 'x' and fp.is_pow2(lo) and fp.log2x(lo) - fp.FMT[b.w]['p'] + 1 >= u:
                            self.cs.append(x == e)
                        elif lo is not None and lo % pow2(u) == 0:
                            m = self.var(xs[0][0])
                            d = z3.If(m >= 0, m, -m) - self.q(lo)
                            self.cs.append(z3.And(x - e <= d, e - x <= d))
        return x

    def lin(self, f):
        if isinstance(f, (int, Fraction)):
            return self.q(f)
        ts = [self.q(c) * self.var(a) for a, c in f.terms.items()]
        return z3.Sum(ts + [self.q(f.const)])

    def limits(self):
        for f, lo, hi in self.E.fpst.limits:
            e = self.lin(f)
            if lo is not None:
                self.cs.append(e >= self.q(lo))
            if hi is not None:
                self.cs.append(e <= self.q(hi))

    def sat(self, c):
        """c together with everything known; True/False"""
        self.limits()
        s = z3.Solver()
        s.set('timeout', 100000)
        s.add(*self.cs)
        s.add(c)
        t = time.time()
        r = s.check()
        self.E.queries += 1
        self.E.solver_s += time.time() - t
        if r == z3.unknown:
            from .engine import Unsupported
            raise Unsupported('solver answered unknown on a rounding-error query')
        self.last = s
        return r == z3.sat


def below(E, f, m):
    """|f| < m whatever the inputs"""
    L = LRA(E)
    e = L.lin(f)
    return not L.sat(z3.Or(e >= L.q(m), e <= L.q(-m)))


def above(E, f, m):
    L = LRA(E)
    return not L.sat(L.lin(f) < L.q(m))


def flog2(v):
    e = v.numerator.bit_length() - v.denominator.bit_length()
    return e if v >= pow2(e) else e - 1


def hints(L, E, *stronger):
    """concrete inputs near a point of the last satisfiable query; stronger: constraints tried on top, first one that can be met wins"""
    try:
        s = L.last
        m = None
        inner = []
        for f, lo, hi in E.fpst.limits:
            e = L.lin(f)
            d = max(abs(b) for b in (lo, hi) if b is not None) / (1 << 24)
            if lo is not None:
                inner.append(e >= L.q(lo + d))
            if hi is not None:
                inner.append(e <= L.q(hi - d))
        whole = [z3.IsInt(x * L.q(pow2(-a.g))) for a, x in L.v.items() if a.kind == 'int']
        s.set('timeout', 8000)
        if whole:
            s.push()
            s.add(*whole)
            if s.check() != z3.sat:
                s.pop()
        if inner:
            s.push()
            s.add(*inner)
            if s.check() != z3.sat:
                s.pop()
        for c in stronger:
            s.push()
            s.add(c)
            if s.check() == z3.sat:
                m = s.model()
                break
            s.pop()
        if m is None:
            if s.check() != z3.sat:
                return None
            m = s.model()
        out = {}
        for a, x in L.v.items():
            if a.kind not in ('x', 'int'):
                continue
            v = m.eval(x, model_completion=True)
            v = Fraction(v.numerator_as_long(), v.denominator_as_long())
            g = a.g
            if a.kind == 'int':
                out[a.key[1]] = round(v / pow2(g))
                continue
            F = fp.FMT[a.w]
            if v:
                e = flog2(abs(v))
                g = max(g, e - F['p'] + 1)
            k = round(v / pow2(g))
            out[a.key[1]] = fp.enc(a.w, k * pow2(g))
        return out
    except Exception:
        return None


def overflowing(E, f, m):
    """inputs for which |f| goes beyond m"""
    out = []
    for sgn in (1, -1):
        L = LRA(E)
        e = L.lin(f)
        if L.sat(e * sgn >= L.q(m)):
            for margin in (Fraction(1, 16), Fraction(1, 1 << 20), Fraction(1, 1 << 36), Fraction(1, 1 << 45), Fraction(0)):
                h = hints(L, E, e * sgn >= L.q(m * (1 + margin)))
                if h and h not in out:
                    out.append(h)
    return out
