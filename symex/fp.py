"""Symbolic floating-point values.

A symbolic value is an exact affine form over atoms (input data, slices, products, ...).  An IEEE operation
is replaced by exact arithmetic only where that is justified:
  * the exact result provably fits the format (grid 2^g and magnitude bound leave at most p bits), or
  * it is one of the deposit steps, whose meaning is given by the slice lemmas (lemmas.py discharges them
    bit-precisely, for all operands, with a SAT solver):
        acc + (v|1)  =  acc + S_u(v)           u = exponent of acc's ulp, acc stays in its binade
        v - S_u(v)      is exact and |v - S_u(v)| <= 2^(u-1)
Everything else becomes an uninterpreted function of its operands (or, on request, exact value + error atom).
Integer views of a value (exponent extraction, mantissa surgery) are bit-vectors known to z3.
"""
import struct, math, time
from fractions import Fraction
import z3
from .ir import UNDEF

SC = 1200
ONE = 1 << SC

FMT = {64: dict(p=53, emax=1024, gmin=-1074, ebits=11, mb=52, bias=1023),
       32: dict(p=24, emax=128, gmin=-149, ebits=8, mb=23, bias=127)}


def p2(e):
    """2^e in scaled units (rounded up to 1 if below the unit)"""
    e += SC
    return 1 << e if e >= 0 else 1


def dec(w, b):
    """bit pattern -> ('nan'|'inf'|'fin', sign, scaled-free Fraction)"""
    F = FMT[w]
    s = b >> (w - 1)
    e = (b >> F['mb']) & ((1 << F['ebits']) - 1)
    m = b & ((1 << F['mb']) - 1)
    if e == (1 << F['ebits']) - 1:
        return ('nan' if m else 'inf', s, None)
    if e == 0:
        v = Fraction(m) * pow2(F['gmin'])
    else:
        v = Fraction(m | (1 << F['mb'])) * pow2(e - F['bias'] - F['mb'])
    return ('fin', s, -v if s else v)


_p2c = {}


def pow2(e):
    r = _p2c.get(e)
    if r is None:
        r = _p2c[e] = Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)
    return r


def enc(w, v, neg0=False):
    """Fraction -> nearest bit pattern, ties to even"""
    F = FMT[w]
    if v == 0:
        return (1 << (w - 1)) if neg0 else 0
    s = 0
    if v < 0:
        s, v = 1, -v
    n, d = v.numerator, v.denominator
    e = n.bit_length() - d.bit_length()
    if (n << max(0, -e)) < (d << max(0, e)):
        e -= 1
    # 2^e <= v < 2^(e+1)
    u = max(e - F['mb'], F['gmin'])
    q = v * pow2(-u)
    k = q.numerator // q.denominator
    r = q - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k & 1):
        k += 1
    if k == 1 << F['p']:
        k >>= 1
        u += 1
    if k.bit_length() + u > F['emax']:
        return (s << (w - 1)) | (((1 << F['ebits']) - 1) << F['mb'])
    if k >= 1 << F['mb']:
        ef = u + F['mb'] + F['bias']
        return (s << (w - 1)) | (ef << F['mb']) | (k - (1 << F['mb']))
    return (s << (w - 1)) | k


def qnan(w):
    return 0x7ff8000000000000 if w == 64 else 0x7fc00000


def inf(w, s=0):
    F = FMT[w]
    return (s << (w - 1)) | (((1 << F['ebits']) - 1) << F['mb'])


def b2f(w, b):
    return struct.unpack('<d', struct.pack('<Q', b))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', b))[0]


def f2b(w, x):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return inf(32, 1 if x < 0 else 0)


def isnan_b(w, b):
    F = FMT[w]
    return (b & ((1 << (w - 1)) - 1)) > inf(w)


def isfin_b(w, b):
    return (b & ((1 << (w - 1)) - 1)) < inf(w)


def v2(fr):
    """2-adic valuation of a nonzero dyadic"""
    if isinstance(fr, int):
        return (fr & -fr).bit_length() - 1
    n, d = fr.numerator, fr.denominator
    r = (n & -n).bit_length() - 1
    if d != 1:
        r -= d.bit_length() - 1
    return r


def scaled(fr):
    """Fraction -> scaled integer, exact or None"""
    if isinstance(fr, int):
        return fr << SC
    n, d = fr.numerator, fr.denominator
    k = d.bit_length() - 1
    if k > SC:
        return None
    return n << (SC - k)


class Val:
    pass


class Multi:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class State:
    def __init__(self, E):
        self.ver = 0
        self.bnd = {}          # atom -> magnitude bound (scaled), |atom| <= bnd
        self.bitvar = {}       # atom -> z3 expr
        self.valbits = {}      # id(Aff) -> (Aff, expr)
        self.bits2val = {}     # ast id -> (expr, Aff)
        self.mant = {}         # ast id of mantissa var -> (var, Aff, u)
        self.dom = {}          # atom -> [max atoms dominating it]
        self.groups = []       # (frozenset of abs keys, lo exponent or None, hi exponent)
        self.rcache = {}
        self.comps = Comps()
        self.errs = []
        self.cls = {}          # opaque sum -> what it can be
        self.least = {}        # atom -> lower limit of its magnitude
        self.limits = []       # (affine form, lo, hi): assumptions on exact values (err reading only)
        self.lemma = set()
        self.range_notes = []
        self.uf = 0


# ---- atoms ---------------------------------------------------------------------------------------
class Atom:
    __slots__ = ('key', 'w', 'g', 'kind', 'anyval', 'nonneg', 'args', 'h', 'expr', 'lo', 'hi')

    def __init__(self, key, w, kind, g=None, anyval=False, nonneg=False, args=(), lo=None, hi=None, expr=None):
        self.key = key
        self.h = hash(key)
        self.w = w
        self.kind = kind
        self.g = FMT[w]['gmin'] if g is None else g
        self.anyval = anyval
        self.nonneg = nonneg
        self.args = args
        self.lo, self.hi = lo, hi
        self.expr = expr

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self.h == o.h and self.key == o.key)

    def __repr__(self):
        return show(self)


def show(a):
    k = a.kind
    if k == 'S':
        return 'S[%d](%s)' % (a.args[0], a.args[1])
    if k in ('abs', 'fn', 'prod', 'lossy'):
        return '%s%r' % (k, a.args)
    if k == 'max':
        return 'max(%d values)' % len(a.args)
    return str(a.key)


def atom_rng(E, a):
    """(lo, hi) in scaled units, or None when the value may be infinite or NaN"""
    st = E.fpst
    ck = (a, E.pcn, st.ver)
    r = st.rcache.get(ck, 0)
    if r != 0:
        return r
    r = _atom_rng(E, a)
    st.rcache[ck] = r
    return r


def rng0(E, v):
    """range of a value without using the maxima that dominate it"""
    if v.n == 1 and v.const == 0:
        (a, c), = v.terms.items()
        if c == 1 or c == -1:
            r = _atom_rng(E, a, True)
            return r if r is None or c == 1 else (-r[1], -r[0])
    if v.fixed:
        return v.lo, v.hi
    return rng(E, v)


def _atom_rng(E, a, nodom=False):
    st = E.fpst
    F = FMT[a.w]
    if a.lo is not None:
        return (a.lo, a.hi)
    mx = p2(F['emax']) - p2(F['emax'] - F['p'])
    m = None if a.anyval else mx
    low = None
    b = st.bnd.get(a)
    if b is not None:
        m = b if m is None else min(m, b)
    if a in st.bitvar:
        h = exp_bound(E, a)
        if h is not None:
            m = h if m is None else min(m, h)
    if a.kind == 'abs':
        r = rng0(E, a.args[0]) if nodom else rng(E, a.args[0])
        if r is not None:
            h = max(abs(r[0]), abs(r[1]))
            m = h if m is None else min(m, h)
        if st.least:
            v = a.args[0]
            if v.n == 1 and v.const == 0:
                (b, c), = v.terms.items()
                b = st.least.get(a, st.least.get(b))
                if b is not None and c in (1, -1):
                    low = scaled(b)
    for d in st.dom.get(a, ()) if not nodom else ():
        r = atom_rng(E, d)
        if r is not None:
            m = r[1] if m is None else min(m, r[1])
    lo = None
    if a.kind == 'max':
        hs = 0
        l = 0
        if m is None:
            m = mx
        for v in a.args:
            if isinstance(v, Aff):
                r = rng0(E, v)
                if r is None:
                    return None
                hs = max(hs, r[1])
                l = max(l, r[0])
        m = min(m, hs)
        if st.groups:
            have = frozenset(v.key() for v in a.args)
            for keys, loe, hie in st.groups:
                if keys and keys <= have and loe is not None:
                    l = max(l, scaled(lowest(loe)))
        lo = l
    if a.kind == 'prod' and m is not None:
        rs = [rng(E, v) for v in a.args]
        if all(r is not None for r in rs):
            # rounding is monotone
            h = 1
            for r in rs:
                h *= max(abs(r[0]), abs(r[1]))
            m = min(m, rn_scaled(F, h))
            ls = [mag_low(E, v, r) for v, r in zip(a.args, rs)]
            if all(ls) and (a.nonneg or all(r[0] > 0 for r in rs)):
                h = 1
                for l in ls:
                    h *= l
                lo = rn_scaled(F, h)
    if a.kind == 'lossy' and m is not None:
        f, k = a.args
        r = rng(E, f)
        if r is not None and r[0] > 0:
            g = F['gmin'] + SC
            l = r[0] << k if k >= 0 else r[0] >> -k
            lo = min(m, l >> g << g)
    if m is None:
        return None
    if low is None and a.nonneg and a.kind == 'x' and a in st.least:
        low = scaled(st.least[a])
    if lo is None:
        lo = low if low is not None else 0 if a.nonneg else -m
    return (lo, m)


def mag_low(E, v, r):
    """a lower limit of the magnitude of v, whose range is r (scaled; 0: none)"""
    if r[0] > 0 or r[1] < 0:
        return min(abs(r[0]), abs(r[1]))
    if E.fpst.least and v.n == 1 and v.const == 0:
        (b, c), = v.terms.items()
        l = E.fpst.least.get(b)
        if l is not None:
            return scaled(l * abs(Fraction(c))) or 0
        if b.kind == 'lossy':
            f, k = b.args
            q = rng(E, f)
            l = mag_low(E, f, q) if q is not None else 0
            g = FMT[b.w]['gmin'] + SC
            l = l << k if k >= 0 else l >> -k
            return (l >> g << g) if abs(c) == 1 else 0
    return 0


def lowest(lo):
    """a lower limit given as an exponent or exactly"""
    return lo if isinstance(lo, Fraction) else pow2(lo)


def rn_scaled(F, v):
    """an exact product of two scaled numbers, rounded to nearest, scaled"""
    sh = max(v.bit_length() - F['p'], F['gmin'] + 2 * SC)
    q, d = divmod(v, 1 << sh)
    h = 1 << (sh - 1)
    if d > h or (d == h and q & 1):
        q += 1
    return q << (sh - SC)


class Comps:
    """connected components of the variables of the path condition; a bound stays the best one until its component grows"""

    def __init__(self):
        self.par = {}
        self.ver = {}
        self.done = 0
        self.cache = {}
        self.solvers = {}
        self.pcv = []

    def find(self, x):
        p = self.par
        p.setdefault(x, x)
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x

    def union(self, vs):
        r = None
        for v in vs:
            v = self.find(v)
            if r is None:
                r = v
            elif v != r:
                self.par[v] = r
        if r is not None:
            self.ver[r] = self.ver.get(r, 0) + 1
        return r

    def update(self, E):
        pc = E.pc
        while self.done < len(pc):
            self.pcv.append(self.union(zvars(pc[self.done])))
            self.done += 1

    def solver(self, E, e):
        """a solver over those path conditions that share variables, directly or not, with e"""
        self.update(E)
        roots = {self.find(v) for v in zvars(e)}
        key = tuple(sorted((r, self.ver.get(r, 0)) for r in roots))
        s = self.solvers.get(key)
        if s is None:
            s = z3.Solver()
            s.set('timeout', 60000)
            for c, vs in zip(E.pc, self.pcv):
                if vs is not None and self.find(vs) in roots:
                    s.add(c)
            self.solvers[key] = s
        return s

    def check(self, E, e, c):
        s = self.solver(E, e)
        t = time.time()
        r = s.check(c)
        E.queries += 1
        E.solver_s += time.time() - t
        if r == z3.unknown:
            from .engine import Unsupported
            raise Unsupported('solver answered unknown: %s' % s.reason_unknown())
        return r == z3.sat

    def version(self, E, e):
        self.update(E)
        roots = tuple(sorted({self.find(v) for v in zvars(e)}))
        return tuple((r, self.ver.get(r, 0)) for r in roots)


def zvars(e):
    """ids of the uninterpreted constants in an expression"""
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add('f:' + x.decl().name())
                todo.extend(x.children())
    return out


def exp_bound(E, a):
    """largest magnitude of the atom under the path condition, from its exponent field"""
    cs = E.fpst.comps
    ver = cs.version(E, E.fpst.bitvar[a])
    r = cs.cache.get(a)
    if r is not None and r[0] == ver:
        return r[1]
    b = _exp_bound(E, a)
    cs.cache[a] = (ver, b)
    return b


def _exp_bound(E, a):
    F = FMT[a.w]
    e = z3.Extract(a.w - 2, F['mb'], E.fpst.bitvar[a])
    lo, hi = 0, (1 << F['ebits']) - 1
    # find the largest feasible exponent field
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if E.fpst.comps.check(E, e, z3.UGE(e, z3.BitVecVal(mid, F['ebits']))):
            lo = mid
        else:
            hi = mid - 1
    if lo == (1 << F['ebits']) - 1:
        return None
    if lo == 0:
        return p2(1 - F['bias']) - p2(F['gmin'])
    k = lo - F['bias'] + 1
    return p2(k) - p2(k - F['p'])


class Aff(Val):
    """exact affine form; value is a finite number of format w"""
    __slots__ = ('w', 'par', 'dl', 'n', 'const', '_terms', 'g', 'lo', 'hi', 'rcached', 'rver', '_key', 'fixed')

    def __init__(self, w, terms, const, g, lo=None, hi=None, par=None, dl=None, n=None):
        self.w = w
        self._terms = terms
        self.const = const
        self.g = g
        self.lo, self.hi = lo, hi
        self.fixed = lo is not None
        self.par, self.dl = par, dl
        self.n = len(terms) if terms is not None else n
        self.rcached = None
        self.rver = None
        self._key = None

    @property
    def terms(self):
        if self._terms is None:
            chain = []
            a = self
            while a._terms is None:
                chain.append(a.dl)
                a = a.par
            t = dict(a._terms)
            for d in reversed(chain):
                for k, c in d.items():
                    s = t.get(k, 0) + c
                    if s == 0:
                        del t[k]
                    else:
                        t[k] = s
            self._terms = t
        return self._terms

    def setr(self, lo, hi):
        self.lo, self.hi, self.fixed = lo, hi, True
        self.rver = None

    def key(self):
        if self._key is None:
            t = self.terms
            if self.const == 0 and len(t) == 1:
                (a, c), = t.items()
                if c == 1:
                    self._key = ('A', a)
                    return self._key
            self._key = ('L', self.const, frozenset(t.items()))
        return self._key

    def bits(self, E):
        return bits_of(E, self)

    def __repr__(self):
        t = self.terms
        s = ' + '.join(('%s*%r' % (c, a)) if c != 1 else repr(a) for a, c in list(t.items())[:6])
        if len(t) > 6:
            s += ' + ...(%d)' % len(t)
        if self.const or not t:
            s += ' + %s' % (self.const if self.const.denominator == 1 and abs(self.const) < 10**6 else float(self.const) if abs(self.const) < 10**300 else '%s' % self.const,)
        return s


def rng(E, v):
    st = E.fpst
    if v.rver == (st.ver, E.pcn):
        return v.rcached
    r = None
    if v.fixed:
        r = (v.lo, v.hi)
        if v.n > 4:
            v.rver, v.rcached = (st.ver, E.pcn), r
            return r
    t = v.terms
    if not v.fixed or len(t) <= 4:
        q = term_range(E, v)
        if q is not None:
            r = q if r is None else (max(q[0], r[0]), min(q[1], r[1]))
    v.rver, v.rcached = (st.ver, E.pcn), r
    return r


def term_range(E, v):
    c = scaled(v.const)
    if c is None:
        c = int(v.const * ONE)
        lo, hi = c - 1, c + 1
    else:
        lo = hi = c
    for a, k in v.terms.items():
        ar = atom_rng(E, a)
        if ar is None:
            return None
        if isinstance(k, int):
            x, y = k * ar[0], k * ar[1]
        else:
            x, y = k.numerator * ar[0], k.numerator * ar[1]
            d = k.denominator
            x, y = (x // d, -(-y // d)) if k > 0 else (-(-x // d), y // d)
        if k < 0:
            x, y = y, x
        lo += x
        hi += y
    return lo, hi


BIGG = 10 ** 6


def const_aff(w, fr):
    return Aff(w, {}, fr, BIGG if fr == 0 else v2(fr))


def atom_aff(a, c=1):
    return Aff(a.w, {a: c}, 0, a.g + (v2(c) if c != 1 else 0))


def data(E, name, w, bound=None, anyval=False, nonneg=False, g=None):
    """a fresh input value; finite unless anyval"""
    a = Atom(('x', name), w, 'x', anyval=anyval, nonneg=nonneg, g=g)
    if bound is not None:
        E.fpst.bnd[a] = bound
    return atom_aff(a)


def intatom(E, name, w, bound):
    """integer-valued, |.| <= bound (an int)"""
    a = Atom(('n', name), w, 'int', g=0, lo=-(bound << SC), hi=bound << SC)
    return atom_aff(a)


class OrOne(Val):
    __slots__ = ('v', 'w')

    def __init__(self, v):
        self.v = v
        self.w = v.w

    def bits(self, E):
        return z3.simplify(bits_of(E, self.v) | z3.BitVecVal(1, self.w))

    def __repr__(self):
        return '(%r)|1' % self.v


FPLIKE = (Val, Multi)


def narrow(v):
    """a double that is exactly a float: the float, else None"""
    if isinstance(v, int):
        k, s, c = dec(64, v)
        if k == 'nan':
            return qnan(32)
        if k == 'inf':
            return inf(32, s)
        r = enc(32, c, neg0=bool(s))
        return r if isfin_b(32, r) and dec(32, r)[2] == c else None
    if isinstance(v, Aff) and v.n == 1 and v.const == 0:
        (a, c), = v.terms.items()
        if a.w == 32 and a.kind not in ('int', 'err') and c in (1, -1):
            return Aff(32, {a: c}, 0, a.g)
        if a.kind == 'fn' and a.args[0] == 'fpext' and c == 1:
            return a.args[1]
    return None


class Cmp:
    """an undecided floating-point comparison"""
    __slots__ = ('pred', 'a', 'b', 'w', 'cache')

    def __init__(self, w, pred, a, b):
        if w == 64:
            x, y = narrow(a), narrow(b)
            if x is not None and y is not None:
                w, a, b = 32, x, y
        self.w, self.pred, self.a, self.b = w, pred, a, b
        self.cache = None

    def to_bool(self, E):
        F = z3.FPSort(FMT[self.w]['ebits'], FMT[self.w]['p'])

        def f(v):
            b = bits_of(E, v) if isinstance(v, Val) else (z3.BitVecVal(v, self.w) if isinstance(v, int) else v)
            return b
        a, b = f(self.a), f(self.b)
        p = self.pred
        # cheap exact encodings for comparisons with zero
        W = self.w
        zb = z3.BitVecVal(0, W - 1)
        if isinstance(self.b, int) and (self.b << 1) & ((1 << W) - 1) == 0 and p in ('oeq', 'une', 'ueq', 'one') and not may_nan(E, self.a):
            z = z3.Extract(W - 2, 0, a) == zb
            return z3.simplify(z if p in ('oeq', 'ueq') else z3.Not(z))
        x, y = z3.fpBVToFP(a, F), z3.fpBVToFP(b, F)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        core = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if p == 'uno':
            r = un
        elif p == 'ord':
            r = z3.Not(un)
        elif p == 'une':
            r = z3.Not(z3.fpEQ(x, y))
        elif p == 'one':
            r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
        elif p[0] == 'o':
            r = core[p[1:]](x, y)
        else:
            r = z3.Or(un, core[p[1:]](x, y))
        return z3.simplify(r)


def difference(E, c):
    """exact difference of the sides of an ordering comparison of finite values"""
    if c.pred[1:] not in ('lt', 'le', 'gt', 'ge'):
        return None
    out = []
    for v in (c.a, c.b):
        if isinstance(v, int):
            k, _, q = dec(c.w, v)
            if k != 'fin':
                return None
            v = const_aff(c.w, norm(q))
        if not isinstance(v, Aff) or rng(E, v) is None:
            return None
        out.append(v)
    return add_exact(out[0], out[1], sub=True)


def limit_difference(E, d, pred, holds):
    from .engine import Infeasible
    from . import lra
    up = (pred in ('gt', 'ge')) == holds
    E.fpst.limits.append((d, 0, None) if up else (d, None, 0))
    L = lra.LRA(E)
    if not L.sat(z3.BoolVal(True)):
        raise Infeasible()


def may_nan(E, v):
    if isinstance(v, Aff):
        return rng(E, v) is None
    if isinstance(v, int):
        return False
    return True


# ---- conversions between views -----------------------------------------------------------------
def bits_of(E, v):
    st = E.fpst
    if isinstance(v, OrOne):
        return v.bits(E)
    r = st.valbits.get(id(v))
    if r is not None:
        return r[1]
    w = v.w
    F = FMT[w]
    t = v.terms if v.n <= 4 else None
    if t is not None and not t:
        return z3.BitVecVal(enc(w, Fraction(v.const)), w)
    if t is not None and len(t) == 1 and v.const == 0:
        (a, c), = t.items()
        if a.kind not in ('int', 'base', 'S', 'err') and c in (1, -1) and a.w == w:
            b = atom_bits(E, a)
            if c == -1:
                b = z3.simplify(b ^ z3.BitVecVal(1 << (w - 1), w))
            _reg(E, v, b)
            return b
    r = rng(E, v)
    if r is not None and r[0] > 0:
        lo, hi = r
        K = lo.bit_length() - 1 - SC
        u = K - F['mb']
        if hi.bit_length() - 1 - SC == K and v.g >= u and K >= 2 - F['bias']:
            m = z3.BitVec(E.fname('m'), F['mb'])
            E.assume(z3.UGE(m, z3.BitVecVal((lo >> (u + SC)) - (1 << F['mb']), F['mb'])))
            E.assume(z3.ULE(m, z3.BitVecVal((hi >> (u + SC)) - (1 << F['mb']), F['mb'])))
            b = z3.Concat(z3.BitVecVal(K + F['bias'], F['ebits'] + 1), m)
            st.mant[m.get_id()] = (m, v, u)
            _reg(E, v, b)
            return b
    # opaque bits, constrained by what is known of the range
    b = z3.BitVec(E.fname('b'), w)
    mag = z3.Extract(w - 2, 0, b)
    if r is not None:
        m = max(abs(r[0]), abs(r[1]))
        E.assume(z3.ULE(mag, z3.BitVecVal(enc(w, min(Fraction(m, ONE), maxfin(w))), w - 1)))
        if r[0] > 0:
            E.assume(z3.UGE(b, z3.BitVecVal(enc_down(w, r[0]), w)))
            E.assume(z3.Extract(w - 1, w - 1, b) == 0)
        elif r[0] >= 0:
            E.assume(z3.Or(z3.Extract(w - 1, w - 1, b) == 0, mag == 0))
        elif r[1] < 0:
            E.assume(z3.Extract(w - 1, w - 1, b) == 1)
    _reg(E, v, b)
    return b


def enc_down(w, m):
    b = enc(w, Fraction(m, ONE))
    if dec(w, b)[2] * ONE > m:
        b -= 1
    return b


def maxfin(w):
    F = FMT[w]
    return pow2(F['emax']) - pow2(F['emax'] - F['p'])


def _reg(E, v, b):
    st = E.fpst
    st.valbits[id(v)] = (v, b)
    st.bits2val[b.get_id()] = (b, v)


def atom_bits(E, a):
    st = E.fpst
    b = st.bitvar.get(a)
    if b is not None:
        return b
    F = FMT[a.w]
    r = atom_rng(E, a)
    if a.expr is not None:
        b = a.expr
    elif a.kind == 'abs' and len(a.args[0].terms) == 1 and a.args[0].const == 0 and a.args[0].w == a.w and list(a.args[0].terms.values())[0] in (1, -1) and list(a.args[0].terms)[0].kind not in ('int', 'S', 'err'):
        b = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(a.w - 2, 0, atom_bits(E, list(a.args[0].terms)[0])))
    else:
        b = z3.BitVec('b:%s!%d' % (a.kind, len(st.bitvar)), a.w)
        E.fresh += 1
    st.bitvar[a] = b
    if r is not None:
        mag = z3.Extract(a.w - 2, 0, b)
        m = max(abs(r[0]), abs(r[1]))
        fr = min(Fraction(m, ONE), maxfin(a.w))
        e = enc(a.w, fr)
        if dec(a.w, e)[2] > fr:
            e -= 1
        E.assume(z3.ULE(mag, z3.BitVecVal(e, a.w - 1)))
        if a.nonneg:
            E.assume(z3.Extract(a.w - 1, a.w - 1, b) == 0)
        if r[0] > 0:
            E.assume(z3.UGE(b, z3.BitVecVal(enc_down(a.w, r[0]), a.w)))
    if a.kind == 'max':
        have = frozenset(v.key() for v in a.args)
        for keys, loe, hie in st.groups:
            if keys and keys <= have and loe is not None:
                # some member of the group has magnitude >= 2^loe
                E.assume(z3.UGE(b, z3.BitVecVal(enc(a.w, lowest(loe)), a.w)))
    return b


def from_bits(E, w, b):
    """symbolic integer -> floating-point value"""
    st = E.fpst
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return b.as_long()
    r = st.bits2val.get(b.get_id())
    if r is not None:
        return r[1]
    if z3.is_app_of(b, z3.Z3_OP_ITE):
        c, x, y = b.children()
        return from_bits(E, w, x if E.decide(c) else y)
    ms = [st.mant[v.get_id()] for v in vars_of(b) if v.get_id() in st.mant]
    if len(ms) == 1 and len(vars_of(b)) == 1:
        r = lift(E, w, b, *ms[0])
        if r is not None:
            return r
    a = Atom(('bits', b.get_id(), w), w, 'bits', anyval=True, expr=b)
    E.atoms[a] = b
    st.bitvar[a] = b
    v = atom_aff(a)
    st.bits2val[b.get_id()] = (b, v)
    st.valbits[id(v)] = (v, b)
    return v


def lift(E, w, b, m, v, u):
    """bits that differ from a known accumulator by a constant number of ulps in its binade"""
    F = FMT[w]
    mb = F['mb']
    for tries in range(4):
        mod = E.model()
        if mod is None:
            from .engine import Infeasible
            raise Infeasible()
        bv = mod.eval(b, model_completion=True).as_long()
        mv = mod.eval(m, model_completion=True).as_long()
        K = u + mb
        if bv >> mb != K + F['bias']:
            return None
        c = (bv & ((1 << mb) - 1)) - mv
        base = z3.Concat(z3.BitVecVal(K + F['bias'], F['ebits'] + 1), m)
        if not E.check(b != base + z3.BitVecVal(c & ((1 << w) - 1), w)):
            nv = add_exact(v, const_aff(w, Fraction(c) * pow2(u)))
            # the mantissa did not wrap: result bounds inside the binade come from the bits
            lo, hi = mant_range(E, z3.simplify(z3.Extract(mb - 1, 0, b)), mb)
            nv.setr((lo + (1 << mb)) << (u + SC), (hi + (1 << mb)) << (u + SC))
            _reg(E, nv, b)
            return nv
        # split on the two leading mantissa bits
        if tries == 0:
            E.decide(z3.Extract(mb - 1, mb - 1, m) == 1)
        elif tries == 1:
            E.decide(z3.Extract(mb - 2, mb - 2, m) == 1)
        elif tries == 2:
            E.decide(z3.Extract(mb - 3, mb - 3, m) == 1)
    return None


def mant_range(E, e, n):
    """smallest and largest value of an n-bit term under the path condition"""
    chk = lambda c: E.fpst.comps.check(E, e, c)
    K = lambda v: z3.BitVecVal(v, n)
    # leading bits that are fixed, then the extremes of the rest, then bisection where these are not attained
    lo, hi = 0, (1 << n) - 1
    for k in range(n - 1, -1, -1):
        b = z3.Extract(k, k, e)
        if not chk(b == 1):
            hi -= 1 << k
        elif not chk(b == 0):
            lo += 1 << k
        else:
            break

    def ext(mx, lo, hi):
        if lo == hi:
            return lo
        if chk(e == K(hi if mx else lo)):
            return hi if mx else lo
        while lo < hi:
            if mx:
                mid = (lo + hi + 1) // 2
                if chk(z3.UGE(e, K(mid))):
                    lo = mid
                else:
                    hi = mid - 1
            else:
                mid = (lo + hi) // 2
                if chk(z3.ULE(e, K(mid))):
                    hi = mid
                else:
                    lo = mid + 1
        return lo
    return ext(False, lo, hi), ext(True, lo, hi)


def vars_of(e):
    seen = set()
    out = {}
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        todo.extend(x.children())
    return list(out.values())


def to_val(E, w, x):
    """anything -> int (concrete), Aff or OrOne"""
    if isinstance(x, (int, Aff, OrOne)):
        return x
    if isinstance(x, z3.BitVecRef):
        return from_bits(E, w, x)
    from .engine import Unsupported
    raise Unsupported('floating-point view of %r' % (x,))


# ---- exact affine arithmetic ---------------------------------------------------------------------
def add_terms(t, d, k=1):
    for a, c in d.items():
        s = t.get(a, 0) + c * k
        if s == 0:
            t.pop(a, None)
        else:
            t[a] = s
    return t


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def grid_of(terms, const):
    g = BIGG
    for a, c in terms.items():
        x = a.g + (v2(c) if c != 1 and c != -1 else 0)
        if x < g:
            g = x
    if const != 0:
        g = min(g, v2(const))
    return g


def add_exact(a, b, sub=False):
    """a +- b as affine forms, sharing long chains"""
    k = -1 if sub else 1
    const = norm(a.const + k * b.const)
    if a.n > 8 and b.n > 8:
        r = chain_diff(a, b) if sub else None
        if r is not None:
            return Aff(a.w, r, const, grid_of(r, const))
        t = add_terms(dict(a.terms), b.terms, k)
        return Aff(a.w, t, const, min(a.g, b.g))
    if sub and (a.par is not None or b.par is not None):
        r = chain_diff(a, b)
        if r is not None:
            return Aff(a.w, r, const, grid_of(r, const))
    if b.n <= 8 and a.n > 8:
        d = b.terms if k == 1 else {x: -c for x, c in b.terms.items()}
        return Aff(a.w, None, const, min(a.g, b.g), par=a, dl=d, n=a.n + len(d))
    if a.n <= 8 and b.n > 8 and k == 1:
        return Aff(a.w, None, const, min(a.g, b.g), par=b, dl=a.terms, n=b.n + len(a.terms))
    t = add_terms(dict(a.terms), b.terms, k)
    return Aff(a.w, t, const, grid_of(t, const))


def chain_diff(a, b):
    """terms of a - b when they share an ancestor, else None"""
    seen = {}
    x, acc = a, []
    while True:
        seen[id(x)] = len(acc)
        if x.par is None:
            break
        acc.append(x.dl)
        x = x.par
    y, accb = b, []
    while id(y) not in seen:
        if y.par is None:
            return None
        accb.append(y.dl)
        y = y.par
    t = {}
    for d in acc[:seen[id(y)]]:
        add_terms(t, d)
    for d in accb:
        add_terms(t, d, -1)
    return t


def scale_exact(a, c):
    c = norm(c)
    if c == 1:
        return a
    t = {x: norm(k * c) for x, k in a.terms.items()}
    r = Aff(a.w, t, norm(a.const * c), a.g + v2(c) if a.g < BIGG else a.g)
    if a.fixed:
        if isinstance(c, int):
            lo, hi = a.lo * c, a.hi * c
        else:
            lo, hi = a.lo * c.numerator, a.hi * c.numerator
            d = c.denominator
            lo, hi = (lo // d, -(-hi // d)) if c > 0 else (-(-lo // d), hi // d)
        if c < 0:
            lo, hi = hi, lo
        r.setr(lo, hi)
    return r


def fits(E, w, r):
    """the exact affine value r is a finite number of format w"""
    F = FMT[w]
    q = rng(E, r)
    if q is None:
        return False
    m = max(abs(q[0]), abs(q[1]))
    if m == 0:
        return True
    g = min(r.g, 5000)
    if g < F['gmin'] or m >= p2(F['emax']):
        return False
    if r.n == 1 and r.const == 0:
        # a power of two times one number of a format no wider than this one
        (a, c), = r.terms.items()
        if FMT[a.w]['p'] <= F['p'] and a.kind not in ('int', 'err') and is_pow2(c):
            return True
    return m <= 1 << max(0, g + F['p'] + SC) if g + F['p'] + SC >= 0 else False


def is_pow2(c):
    c = abs(c)
    if isinstance(c, int):
        return c > 0 and c & (c - 1) == 0
    n, d = c.numerator, c.denominator
    return n & (n - 1) == 0 and d & (d - 1) == 0


def log2x(c):
    c = abs(c)
    if isinstance(c, int):
        return c.bit_length() - 1
    return c.numerator.bit_length() - c.denominator.bit_length()


# ---- slices --------------------------------------------------------------------------------------
def sign_norm(v):
    """(sign, form) with a canonical sign"""
    t = v.terms
    if not t:
        return (-1, scale_exact(v, -1)) if v.const < 0 else (1, v)
    # the atom with the smallest representation decides
    a = min(t, key=lambda x: x.h)
    if t[a] < 0:
        return -1, scale_exact(v, -1)
    return 1, v


def slice_val(E, u, v):
    """S_u(v) as an affine form: what depositing v adds to an accumulator with ulp 2^u"""
    w = v.w
    if not v.terms:
        c = Fraction(v.const)
        b = enc(w, c) | 1
        q = dec(w, b)[2] * pow2(-u)
        n = math.floor(q + Fraction(1, 2))
        if q + Fraction(1, 2) == n:
            n -= n & 1       # cannot happen for odd mantissas above the format's grid
        return const_aff(w, norm(Fraction(n) * pow2(u)))
    if E.inexact == 'err' and lies_on(E, u, v):
        return v
    s, f = sign_norm(v)
    r = rng(E, f)
    lim = None
    if r is not None:
        m = max(abs(r[0]), abs(r[1]))
        h = 1 << max(0, u - 1 + SC)
        if m < h and u - 1 + SC >= 0:
            return const_aff(w, 0)
        lim = ((m + h) >> (u + SC)) << (u + SC)
    key = ('S', u, f.key())
    a = E.atoms.get(key)
    if a is None:
        a = Atom(key, w, 'S', g=u, args=(u, f))
        E.atoms[key] = a
    if lim is not None:
        b = E.fpst.bnd.get(a)
        if b is None or b > lim:
            E.fpst.bnd[a] = lim
    return atom_aff(a, s)


def acc_info(E, w, a):
    F = FMT[w]
    r = rng(E, a)
    if r is None or r[0] <= 0:
        return None
    K = r[0].bit_length() - 1 - SC
    if r[1].bit_length() - 1 - SC != K or K < 4 - F['bias'] or K >= F['emax']:
        return None
    u = K - F['mb']
    if a.g < u:
        return None
    return K, u, r


def acc_add(E, w, a, v):
    """a + (v|1)"""
    F = FMT[w]
    if isinstance(a, int):
        k, s, fr = dec(w, a)
        if k != 'fin':
            return qnan(w) if k == 'nan' else a
        a = const_aff(w, norm(fr))
    ai = acc_info(E, w, a)
    st = E.fpst
    if ai is None:
        return opaque(E, w, 'fadd', a, OrOne(v))
    K, u, r = ai
    q = rng(E, v)
    if q is None:
        return opaque(E, w, 'fadd', a, OrOne(v))
    m = max(abs(q[0]), abs(q[1]))
    if m > p2(u + F['p'] - 3):
        st.range_notes.append('a value too large for its bin is deposited')
        return opaque(E, w, 'fadd', a, OrOne(v))
    s = slice_val(E, u, v)
    sr = rng(E, s)
    lo, hi = r[0] + sr[0], r[1] + sr[1]
    if lo < p2(K) + p2(u) or hi > p2(K + 1) - p2(u):
        st.range_notes.append('an accumulator can leave its binade (too many deposits without renormalisation)')
        return opaque(E, w, 'fadd', a, OrOne(v))
    st.lemma.add((w, 'deposit'))
    if not s.terms and s.const == 0:
        return a
    res = Aff(w, None, norm(a.const + s.const), u, par=a, dl=s.terms, n=a.n + len(s.terms))
    res.setr(lo, hi)
    return res


def remainder(E, w, r, b):
    """r = v - S_u(v) or its half-way form: exact by the remainder lemma. b: the operand holding the slice"""
    bt = b.terms
    if b.const != 0 or len(bt) != 1:
        return None
    (S, _), = bt.items()
    if S.kind != 'S':
        return None
    c = r.terms.get(S)
    if c is None or not is_pow2(c):
        return None
    u, v = S.args
    rest = {k: x for k, x in r.terms.items() if k is not S and k != S}
    s = log2x(c)
    sg = -1 if c > 0 else 1
    lossy = None
    if len(v.terms) == 1 and v.const == 0:
        (la, lc), = v.terms.items()
        if la.kind == 'lossy' and lc in (1, -1):
            lossy = (la, lc)

    def match(k):
        """rest == sg * 2^k * v"""
        if lossy is not None:
            la, lc = lossy
            if la.args[1] != -k:
                return False
            src = la.args[0]
            f = sg * lc
            return r.const == norm(src.const * f) and rest == {x: norm(y * f) for x, y in src.terms.items()}
        f = pow2(k) * sg
        return r.const == norm(v.const * f) and rest == {x: norm(y * f) for x, y in v.terms.items()}
    if match(s):
        h = p2(u + s - 1)
        if r.fixed:
            r.setr(max(r.lo, -h), min(r.hi, h))
        else:
            r.setr(-h, h)
        E.fpst.lemma.add((w, 'remainder' if s == 0 else 'remainder0'))
        return r
    if s >= 1 and match(s + 1) or (s >= 0 and lossy is None and match(s + 1) and s > 0):
        E.fpst.lemma.add((w, 'remainder0'))
        return r
    return None


def opaque(E, w, fn, *args):
    st = E.fpst
    st.uf += 1
    ks = []
    for a in args:
        ks.append(vkey(a))
    if fn in ('fadd', 'fmul'):
        ks.sort(key=lambda k: hash(k))
    key = ('fn', fn, w) + tuple(ks)
    a = E.atoms.get(key)
    if a is None:
        a = Atom(key, w, 'fn', anyval=True, args=(fn,) + tuple(args))
        E.atoms[key] = a
    if fn in ('fadd', 'fsub') and a not in st.cls:
        st.cls[a] = sum_classes(classes(E, w, args[0]), classes(E, w, args[1]), fn == 'fsub')
    return atom_aff(a)


NEG = {'+': '-', '-': '+', 'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}


def bits_class(w, b):
    k, s, _ = dec(w, b)
    return 'nan' if k == 'nan' else ('-inf' if s else 'inf') if k == 'inf' else '-' if s else '+'


def sum_classes(x, y, sub=False):
    """IEEE 754 addition on kinds of values; the sum of finite numbers of the same sign may overflow"""
    out = set()
    for p in x:
        for q in y:
            if sub:
                q = NEG[q]
            if 'nan' in (p, q) or {p, q} == {'inf', '-inf'}:
                out.add('nan')
            elif 'inf' in (p, q):
                out.add('inf')
            elif '-inf' in (p, q):
                out.add('-inf')
            elif p == q:
                out |= {p, 'inf' if p == '+' else '-inf'}
            else:
                out |= {'+', '-'}
    return out


def classes(E, w, v):
    """what a value can be: '+' and '-' (finite), 'inf', '-inf', 'nan'"""
    if isinstance(v, int):
        return {bits_class(w, v)}
    if isinstance(v, OrOne):
        return classes(E, w, v.v)
    if not isinstance(v, Aff):
        return set(NEG)
    r = rng(E, v)
    if r is not None:
        return {'+'} if r[0] > 0 else {'-'} if r[1] < 0 else {'+', '-'}
    if v.n == 1 and v.const == 0:
        (a, c), = v.terms.items()
        k = E.fpst.cls.get(a)
        if k is not None and c in (1, -1):
            return k if c == 1 else {NEG[x] for x in k}
    return set(NEG)


def vkey(a):
    if isinstance(a, int):
        return ('c', a)
    if isinstance(a, OrOne):
        return ('or1', a.v.key())
    if isinstance(a, Aff):
        return a.key()
    return ('?', a)


def inexact(E, w, fn, r, a, b):
    """the exact result r may need rounding"""
    if E.inexact == 'err' and r is not None:
        return rounded(E, w, r)
    v = opaque(E, w, fn, a, b)
    if r is not None and fn in ('fadd', 'fsub'):
        # rounding is monotone: the rounded sum is no larger than the next power of two
        q = rng(E, r)
        if q is not None:
            h = max(abs(q[0]), abs(q[1]))
            h = 1 << (h - 1).bit_length() if h > 1 else 1
            if h < p2(FMT[w]['emax']):
                (at, _), = v.terms.items()
                b = E.fpst.bnd.get(at)
                if b is None or h < b:
                    E.fpst.bnd[at] = h
                    E.fpst.ver += 1
    return v


def lies_on(E, u, g):
    """g is a multiple of 2^u, small enough for its last bit to be below half of that: depositing it adds just it"""
    q = rng(E, g)
    return g.g >= u and q is not None and max(abs(q[0]), abs(q[1])) <= p2(u + FMT[g.w]['p'] - 3)


def ongrid(E, f):
    """f with every slice of a value that already lies on the grid of the bin replaced by the value"""
    while True:
        for a, c in f.terms.items():
            if a.kind != 'S':
                continue
            u, g = a.args
            if lies_on(E, u, g):
                r = f.lo, f.hi, f.fixed
                f = add_exact(add_exact(f, atom_aff(a, c), sub=True), scale_exact(g, c))
                break
        else:
            return f


def rounded(E, w, r):
    """r with a rounding error of the format (err reading); an infinity when that is certain"""
    from . import lra
    from .engine import Unsupported
    F = FMT[w]
    edge = pow2(F['emax']) - pow2(F['emax'] - F['p'] - 1)
    o = rng(E, r)
    r = ongrid(E, r)
    q = rng(E, r)
    if o is not None:
        q = o if q is None else (max(q[0], o[0]), min(q[1], o[1]))
    if q is None or max(abs(q[0]), abs(q[1])) >= scaled(edge):
        if lra.below(E, r, edge):
            h = scaled(edge) - 1
            q = (-h, h) if q is None else (max(q[0], -h), min(q[1], h))
        elif lra.above(E, r, edge):
            return inf(w, 0)
        elif lra.above(E, scale_exact(r, -1), edge):
            return inf(w, 1)
        else:
            raise Unsupported('the result may or may not overflow', lra.overflowing(E, r, edge))
    m = max(abs(q[0]), abs(q[1]))
    key = ('err', w, r.key())
    e = E.atoms.get(key)
    K = max(m.bit_length() - SC, 2 - F['bias'])   # m < 2^K
    h = max(p2(K - 1 - F['p']), p2(F['gmin'] - 1))
    if e is None:
        e = Atom(key, w, 'err', g=min(r.g, K - F['p']), args=(r,), lo=-h, hi=h)
        E.atoms[key] = e
        E.fpst.errs.append((e, r))
    out = add_exact(r, atom_aff(e))
    out.g = max(F['gmin'], r.g) if r.g < BIGG else F['gmin']
    out.setr(q[0] - h, q[1] + h)
    return out


def err_scale(E, w, x, c):
    """x * c, c a power of two, in the err reading: exact unless it overflows or falls on the subnormal grid"""
    from . import lra
    from .engine import Unsupported
    F = FMT[w]
    r = scale_exact(x, c)
    if r.g < F['gmin']:
        lo = None
        if len(r.terms) == 1 and r.const == 0:
            (a, k), = r.terms.items()
            lo = E.fpst.least.get(a)
        if lo is None or a.w != w or a.kind != 'x' or not is_pow2(abs(k)) or lo * abs(k) < pow2(F['gmin'] + F['p'] - 1):
            return rounded(E, w, r)
        r.g = F['gmin']         # the number is not that small
    edge = pow2(F['emax'])
    q = rng(E, r)
    if q is None or max(abs(q[0]), abs(q[1])) >= scaled(edge):
        if lra.below(E, r, edge):
            h = scaled(edge) - 1
            r.setr(-h if q is None else max(q[0], -h), h if q is None else min(q[1], h))
        elif lra.above(E, r, edge):
            return inf(w, 0)
        elif lra.above(E, scale_exact(r, -1), edge):
            return inf(w, 1)
        else:
            raise Unsupported('the result may or may not overflow', lra.overflowing(E, r, edge))
    q = rng(E, r)
    if q is not None and len(r.terms) == 1 and r.const == 0:
        # a number of known sign and known least magnitude
        (a, k), = r.terms.items()
        lo = E.fpst.least.get(a)
        if lo is not None and q[0] >= 0:
            r.setr(max(q[0], scaled(lo * abs(k))), q[1])
        elif lo is not None and q[1] <= 0:
            r.setr(q[0], min(q[1], -scaled(lo * abs(k))))
    return r


# ---- operations ----------------------------------------------------------------------------------
def conc_add(w, x, y):
    if w == 64:
        a, b = b2f(64, x), b2f(64, y)
        r = a + b
        if r != r:
            return qnan(64)
        return f2b(64, r)
    r = b2f(32, x) + b2f(32, y)
    if r != r:
        return qnan(32)
    return f2b(32, r)


def fadd(E, w, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return conc_add(w, x, y)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    x, y = to_val(E, w, x), to_val(E, w, y)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, int):
            if isnan_b(w, p):
                return qnan(w)
            if not isfin_b(w, p):
                if isinstance(q, int) and not isfin_b(w, q):
                    return conc_add(w, p, q)
                if isinstance(q, Aff) and rng(E, q) is None:
                    k = sum_classes(classes(E, w, p), classes(E, w, q))
                    return p if len(k) == 1 and 'nan' not in k else opaque(E, w, 'fadd', p, q)
                return p
    if isinstance(x, int) and isinstance(y, int):
        return conc_add(w, x, y)
    if isinstance(x, OrOne) or isinstance(y, OrOne):
        if isinstance(x, OrOne) and isinstance(y, OrOne):
            return opaque(E, w, 'fadd', x, y)
        if isinstance(x, OrOne):
            x, y = y, x
        return acc_add(E, w, x, y.v)
    odd = None
    if isinstance(x, int):
        x = const_aff(w, norm(dec(w, x)[2]))
        odd = (y, x)
    elif isinstance(y, int):
        y = const_aff(w, norm(dec(w, y)[2]))
        odd = (x, y)
    if odd is not None and odd[1].const == 0:
        return odd[0]
    if E.inexact == 'uf-only':
        return opaque(E, w, 'fadd', x, y)
    r = add_exact(x, y)
    return fin_add(E, w, r, x, y, odd, 'fadd')


def fin_add(E, w, r, x, y, odd, fn):
    if not r.terms if r.n <= 8 else False:
        return enc(w, Fraction(r.const))
    # a long accumulator plus something small: keep interval bounds incrementally
    if not r.fixed:
        a, b = rng(E, x), rng(E, y)
        if a is not None and b is not None:
            lo, hi = a[0] + b[0], a[1] + b[1]
            if r.par is None and r.n > 4:
                q = term_range(E, r)
                if q is not None:
                    lo, hi = max(lo, q[0]), min(hi, q[1])
            r.setr(lo, hi)
    for b in (x, y):
        if isinstance(b, Aff) and b.n == 1:
            q = remainder(E, w, r, b)
            if q is not None:
                return q
    if fits(E, w, r):
        return r
    if odd is not None:
        # accumulator plus a constant far below its ulp (an already concrete v|1)
        a, c = odd
        ai = acc_info(E, w, a)
        if ai is not None:
            K, u, rr = ai
            cs = scaled(Fraction(c.const))
            h = p2(u - 1)
            if cs is not None and abs(cs) < h and rr[0] > p2(K) and rr[1] < p2(K + 1):
                return a
            if cs is not None and rr[0] > p2(K) and rr[1] < p2(K + 1):
                # a constant with bits below the ulp: its part on the grid is added, the rest rounds away (it is not half an ulp)
                n, d = divmod(cs, p2(u))
                if d > h:
                    n, d = n + 1, p2(u) - d
                if d < h:
                    c0 = n * p2(u)
                    if rr[0] + c0 > p2(K) and rr[1] + c0 < p2(K + 1):
                        v = add_exact(a, const_aff(w, norm(Fraction(c0, ONE))))
                        v.setr(rr[0] + c0, rr[1] + c0)
                        return v
    return inexact(E, w, fn, r, x, y)


def fsub(E, w, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return conc_add(w, x, y ^ (1 << (w - 1)))
    if x is UNDEF or y is UNDEF:
        return UNDEF
    y = to_val(E, w, y)
    x = to_val(E, w, x)
    if isinstance(x, Aff) and isinstance(y, Aff) and E.inexact != 'uf-only':
        if not (isinstance(x, Aff) and rng(E, x) is None) and not rng(E, y) is None:
            r = add_exact(x, y, sub=True)
            if r.n <= 8 and not r.terms and fits(E, w, r):
                return enc(w, Fraction(r.const))
            if not r.fixed:
                a, b = rng(E, x), rng(E, y)
                lo, hi = a[0] - b[1], a[1] - b[0]
                if r.par is None and r.n > 4:
                    q = term_range(E, r)
                    if q is not None:
                        lo, hi = max(lo, q[0]), min(hi, q[1])
                r.setr(lo, hi)
            for b in (x, y):
                if b.n == 1 and remainder(E, w, r, b) is not None:
                    return r
            if fits(E, w, r):
                return r
    return fadd(E, w, x, fneg(E, w, y))


def fneg(E, w, x):
    if isinstance(x, int):
        return x ^ (1 << (w - 1))
    if x is UNDEF:
        return UNDEF
    x = to_val(E, w, x)
    if isinstance(x, int):
        return x ^ (1 << (w - 1))
    if isinstance(x, OrOne):
        return OrOne(fneg(E, w, x.v))
    return scale_exact(x, -1)


def conc_mul(w, x, y):
    r = b2f(w, x) * b2f(w, y)
    if r != r:
        return qnan(w)
    if w == 64:
        return f2b(64, r)
    return f2b(32, r)


def fmul(E, w, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return conc_mul(w, x, y)
    if x is UNDEF or y is UNDEF:
        return UNDEF
    x, y = to_val(E, w, x), to_val(E, w, y)
    if isinstance(x, int):
        x, y = y, x
    if isinstance(x, int):
        return conc_mul(w, x, y)
    if isinstance(x, OrOne) or isinstance(y, OrOne):
        return opaque(E, w, 'fmul', x, y)
    if isinstance(y, int):
        k, s, c = dec(w, y)
        if k == 'nan':
            return y
        if k == 'inf':
            r = rng(E, x)
            if r is not None and (r[0] > 0 or r[1] < 0):
                return inf(w, s ^ (1 if r[1] < 0 else 0))
            return opaque(E, w, 'fmul', x, y)
        if c == 0:
            if rng(E, x) is None:
                return opaque(E, w, 'fmul', x, y)
            return 0
        if c == 1:
            return x
        if c == -1:
            return fneg(E, w, x)
        if E.inexact == 'uf-only':
            return prod(E, w, x, const_aff(w, norm(c)))
        if rng(E, x) is None:
            return opaque(E, w, 'fmul', x, y)
        r = scale_exact(x, c)
        if fits(E, w, r):
            return r
        if E.inexact == 'err':
            return err_scale(E, w, x, c) if is_pow2(c) else rounded(E, w, r)
        if is_pow2(c):
            return lossy(E, w, x, c)
        return prod(E, w, x, const_aff(w, norm(c)))
    return prod(E, w, x, y)


def lossy(E, w, x, c):
    """x * 2^k where the result may be rounded on the subnormal grid (or overflow)"""
    F = FMT[w]
    q = rng(E, x)
    k = log2x(c)
    # an already lossy value with the same factor undone is not simplified
    key = ('lossy', x.key() if c > 0 else scale_exact(x, -1).key(), k)
    src = x if c > 0 else scale_exact(x, -1)
    s, f = sign_norm(src)
    key = ('lossy', f.key(), k)
    a = E.atoms.get(key)
    if a is None:
        a = Atom(key, w, 'lossy', args=(f, k))
        E.atoms[key] = a
    if q is None:
        a.anyval = True
    else:
        m = max(abs(q[0]), abs(q[1]))
        m = m << k if k >= 0 else -(-m >> -k)
        m = max(m, p2(F['gmin']))
        if m >= p2(F['emax']):
            a.anyval = True
        elif E.fpst.bnd.get(a, m + 1) > m:
            E.fpst.bnd[a] = m
            E.fpst.ver += 1
    return atom_aff(a, s)


def prod(E, w, x, y):
    sx_, x = sign_norm(x)
    sy, y = sign_norm(y)
    kx, ky = x.key(), y.key()
    if hash(kx) > hash(ky):
        x, y, kx, ky = y, x, ky, kx
    key = ('prod', w, kx, ky)
    a = E.atoms.get(key)
    if a is None:
        fin = not (rng(E, x) is None or rng(E, y) is None) and not getattr(E, 'prod_any', False)
        a = Atom(key, w, 'prod', anyval=not fin, args=(x, y), nonneg=(kx == ky))
        E.atoms[key] = a
    return atom_aff(a, sx_ * sy)


def fdiv(E, w, x, y):
    if isinstance(x, int) and isinstance(y, int):
        a, b = dec(w, x), dec(w, y)
        if a[0] == 'nan' or b[0] == 'nan':
            return qnan(w)
        s = a[1] ^ b[1]
        if a[0] == 'inf':
            return qnan(w) if b[0] == 'inf' else inf(w, s)
        if b[0] == 'inf':
            return s << (w - 1)
        if b[2] == 0:
            return qnan(w) if a[2] == 0 else inf(w, s)
        return enc(w, a[2] / b[2], neg0=bool(s))
    if x is UNDEF or y is UNDEF:
        return UNDEF
    x, y = to_val(E, w, x), to_val(E, w, y)
    if isinstance(y, int):
        k, s, c = dec(w, y)
        if k == 'fin' and c != 0 and is_pow2(c) and E.inexact != 'uf-only':
            if not isinstance(x, int):
                if rng(E, x) is not None:
                    r = scale_exact(x, 1 / Fraction(c))
                    if fits(E, w, r):
                        return r
                    return lossy(E, w, x, 1 / Fraction(c))
        if k == 'inf' and isinstance(x, Aff):
            r = rng(E, x)
            if r is not None and (r[0] > 0 or r[1] < 0):
                return (s ^ (r[1] < 0)) << (w - 1)
    return opaque(E, w, 'fdiv', x, y)


def fabs(E, w, x):
    if isinstance(x, int):
        return x & ((1 << (w - 1)) - 1)
    if x is UNDEF:
        return UNDEF
    x = to_val(E, w, x)
    if isinstance(x, int):
        return x & ((1 << (w - 1)) - 1)
    if isinstance(x, OrOne):
        return OrOne(fabs(E, w, x.v))
    if E.inexact != 'uf-only':
        r = rng(E, x)
        if r is not None:
            if r[0] >= 0:
                return x
            if r[1] <= 0:
                return scale_exact(x, -1)
    s, f = sign_norm(x)
    key = ('abs', f.key())
    a = E.atoms.get(key)
    if a is None:
        a = Atom(key, w, 'abs', args=(f,), nonneg=True, anyval=rng(E, f) is None, g=max(f.g, FMT[w]['gmin']) if f.g < BIGG else None)
        E.atoms[key] = a
    return atom_aff(a)


def sqrt(E, w, x):
    if isinstance(x, int):
        if isnan_b(w, x):
            return qnan(w)
        v = b2f(w, x)
        if v < 0:
            return qnan(w)
        if w == 64:
            return f2b(64, math.sqrt(v))
        # correctly rounded single square root through double is exact enough (2p+2 <= 53)
        return f2b(32, math.sqrt(v))
    if x is UNDEF:
        return UNDEF
    return opaque(E, w, 'sqrt', to_val(E, w, x))


def uf_key_sorted(*a):
    return a


def ldexp(E, w, x, e):
    if not isinstance(e, int):
        e = E.concretize(e, 32)
    if e >= 1 << 31:
        e -= 1 << 32
    if isinstance(x, int):
        k, s, c = dec(w, x)
        if k != 'fin':
            return x
        return enc(w, c * pow2(e), neg0=bool(s)) if c != 0 else x
    x = to_val(E, w, x)
    if isinstance(x, int):
        return ldexp(E, w, x, e & 0xffffffff)
    if rng(E, x) is None:
        return opaque(E, w, 'ldexp%d' % e, x)
    r = scale_exact(x, pow2(e))
    return r if fits(E, w, r) else lossy(E, w, x, pow2(e))


def frexp(E, w, x, p):
    F = FMT[w]
    if isinstance(x, int):
        k, s, c = dec(w, x)
        if k != 'fin' or c == 0:
            if k == 'fin':
                E.store1(p, 4, 0)
            else:
                E.store1(p, 4, z3.BitVec(E.fname('frexp'), 32))
            return x
        a = abs(c)
        e = a.numerator.bit_length() - a.denominator.bit_length()
        if a < pow2(e):
            e -= 1
        e += 1
        E.store1(p, 4, e & 0xffffffff)
        return enc(w, c * pow2(-e))
    b = bits_of(E, to_val(E, w, x))
    ef = z3.ZeroExt(32 - F['ebits'], z3.Extract(w - 2, F['mb'], b))
    m = z3.Extract(F['mb'] - 1, 0, b)
    r = z3.BitVecVal(0, 32)
    for i in range(F['mb']):
        r = z3.If(z3.Extract(i, i, m) == 1, z3.BitVecVal((F['gmin'] + i + 1) & 0xffffffff, 32), r)
    e = z3.If(ef == 0, r, ef - (F['bias'] - 1))
    e = z3.If(ef == (1 << F['ebits']) - 1, z3.BitVec(E.fname('frexp'), 32), e)
    E.store1(p, 4, z3.simplify(e))
    return opaque(E, w, 'frexp', to_val(E, w, x))


def fpclass(E, w, x, mask):
    """bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -0 6 +0 7 +sub 8 +normal 9 +inf"""
    if isinstance(x, int):
        k, s, c = dec(w, x)
        F = FMT[w]
        if k == 'nan':
            bit = 1 if (x >> (F['mb'] - 1)) & 1 else 0
        elif k == 'inf':
            bit = 2 if s else 9
        elif c == 0:
            bit = 5 if s else 6
        else:
            sub = (x >> F['mb']) & ((1 << F['ebits']) - 1) == 0
            bit = (4 if sub else 3) if s else (7 if sub else 8)
        return (mask >> bit) & 1
    if x is UNDEF:
        return UNDEF
    v = to_val(E, w, x)
    if isinstance(v, int):
        return fpclass(E, w, v, mask)
    F = FMT[w]
    if isinstance(v, Aff) and rng(E, v) is not None and mask & ~(3 | 0x204) == 0:
        return 0
    b = bits_of(E, v)
    ef = z3.Extract(w - 2, F['mb'], b)
    m = z3.Extract(F['mb'] - 1, 0, b)
    s = z3.Extract(w - 1, w - 1, b)
    top = ef == (1 << F['ebits']) - 1
    cs = []
    if mask & 3 == 3:
        cs.append(z3.And(top, m != 0))
    elif mask & 3:
        from .engine import Unsupported
        raise Unsupported('signalling NaN test')
    for bit, c in ((2, z3.And(top, m == 0, s == 1)), (9, z3.And(top, m == 0, s == 0)),
                   (3, z3.And(s == 1, ef != 0, z3.Not(top))), (8, z3.And(s == 0, ef != 0, z3.Not(top))),
                   (4, z3.And(s == 1, ef == 0, m != 0)), (7, z3.And(s == 0, ef == 0, m != 0)),
                   (5, z3.And(s == 1, ef == 0, m == 0)), (6, z3.And(s == 0, ef == 0, m == 0))):
        if mask >> bit & 1:
            cs.append(c)
    r = z3.simplify(z3.Or(*cs))
    return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r


def fcmp(E, w, pred, x, y):
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if isinstance(x, int) and isinstance(y, int):
        a, b = b2f(w, x), b2f(w, y)
        un = a != a or b != b
        if pred == 'ord':
            return int(not un)
        if pred == 'uno':
            return int(un)
        if un:
            return int(pred[0] == 'u')
        k = pred[1:]
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
    if x is UNDEF or y is UNDEF:
        return UNDEF
    x, y = to_val(E, w, x), to_val(E, w, y)
    if isinstance(x, int) and isinstance(y, int):
        return fcmp(E, w, pred, x, y)
    for p, q, fl in ((x, y, False), (y, x, True)):
        if isinstance(p, int):
            if isnan_b(w, p):
                return int(pred[0] == 'u')
            if not isfin_b(w, p) and isinstance(q, Aff) and rng(E, q) is not None:
                pos = not p >> (w - 1)
                # p = +-inf against a finite q
                k = pred[1:]
                if pred == 'ord':
                    return 1
                if pred == 'uno':
                    return 0
                gt = pos != fl      # x > y
                return int({'eq': False, 'ne': True, 'lt': not gt, 'le': not gt, 'gt': gt, 'ge': gt}[k])
    if isinstance(x, OrOne) or isinstance(y, OrOne):
        return Cmp(w, pred, x, y)
    X = const_aff(w, norm(dec(w, x)[2])) if isinstance(x, int) and isfin_b(w, x) else x
    Y = const_aff(w, norm(dec(w, y)[2])) if isinstance(y, int) and isfin_b(w, y) else y
    if isinstance(X, int) or isinstance(Y, int):
        return Cmp(w, pred, x, y)
    a, b = rng(E, X), rng(E, Y)
    if a is None or b is None:
        if pred == 'uno' or pred == 'ord':
            return Cmp(w, pred, x, y)
        return Cmp(w, pred, x, y)
    if pred == 'ord':
        return 1
    if pred == 'uno':
        return 0
    d = add_exact(X, Y, sub=True)
    if d.n <= 8 and not d.terms:
        k = pred[1:]
        c = d.const
        return int({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[k])
    k = pred[1:]
    if a[0] > b[1]:
        return int(k in ('gt', 'ge', 'ne'))
    if a[1] < b[0]:
        return int(k in ('lt', 'le', 'ne'))
    if a[0] >= b[1] and k in ('ge', 'lt'):
        return int(k == 'ge')
    if a[1] <= b[0] and k in ('le', 'gt'):
        return int(k == 'le')
    return Cmp(w, pred, x, y)


def vmax(E, w, a, b):
    """max of finite values"""
    def mem(v):
        if isinstance(v, int):
            return [const_aff(w, norm(dec(w, v)[2]))]
        if v.n == 1 and v.const == 0:
            (at, c), = v.terms.items()
            if at.kind == 'max' and c == 1:
                return list(at.args)
        return [v]
    seen = {}
    for v in mem(a) + mem(b):
        seen[v.key()] = v
    vs = list(seen.values())
    lo = max((rng(E, v)[0] for v in vs if rng(E, v) is not None), default=0)
    keep = []
    for v in vs:
        if not v.terms and any(x is not v and rng(E, x) is not None and rng(E, x)[0] >= rng(E, v)[1] for x in vs):
            continue
        keep.append(v)
    if len(keep) == 1:
        v = keep[0]
        return enc(w, Fraction(v.const)) if not v.terms else v
    key = ('max', frozenset(v.key() for v in keep))
    at = E.atoms.get(key)
    if at is None:
        at = Atom(key, w, 'max', args=tuple(keep), nonneg=any(rng(E, v)[0] >= 0 for v in keep))
        E.atoms[key] = at
        for v in keep:
            if len(v.terms) == 1 and v.const == 0:
                (q, c), = v.terms.items()
                if c == 1:
                    E.fpst.dom.setdefault(q, []).append(at)
                    if q.kind == 'abs':
                        z = q.args[0]
                        if len(z.terms) == 1 and z.const == 0:
                            (q2, c2), = z.terms.items()
                            if c2 in (1, -1):
                                E.fpst.dom.setdefault(q2, []).append(at)
        E.fpst.ver += 1
    return atom_aff(at)


def x86max(E, w, x, y):
    """MAXPD: x > y ? x : y (the second operand if either is NaN or both are zero)"""
    if x is UNDEF or y is UNDEF:
        return UNDEF
    x, y = to_val(E, w, x), to_val(E, w, y)
    c = fcmp(E, w, 'ogt', x, y)
    if isinstance(c, int):
        return x if c else y
    r = select_cmp(E, c, x, y)
    if r is not None:
        return r
    return x if E.decide(c) else y


def select_cmp(E, c, x, y):
    if not isinstance(x, (int, Val)) or not isinstance(y, (int, Val)):
        return None
    if isinstance(x, OrOne) or isinstance(y, OrOne):
        return None
    k = c.pred[1:]
    if k not in ('gt', 'ge', 'lt', 'le'):
        return None
    a, b = vkey(c.a), vkey(c.b)
    kx, ky = vkey(x), vkey(y)
    fin = all(isinstance(v, Aff) and rng(E, v) is not None or isinstance(v, int) and isfin_b(c.w, v) for v in (c.a, c.b))
    if not fin:
        return None
    if k in ('gt', 'ge') and (kx, ky) == (a, b) or k in ('lt', 'le') and (kx, ky) == (b, a):
        return vmax(E, c.w, c.a, c.b)
    return None


def bitop(E, n, op, x, y):
    """integer operation on a floating-point value's bits; None: fall back to bit-vectors"""
    if isinstance(x, int):
        if op not in ('and', 'or', 'xor'):
            return None
        x, y = y, x
    if isinstance(x, Multi):
        if isinstance(y, int) and op in ('and', 'or', 'xor'):
            out = []
            at = 0
            for pw, pv in x.parts:
                k = (y >> (8 * at)) & ((1 << (8 * pw)) - 1)
                out.append((pw, bitop_c(E, 8 * pw, op, pv, k)))
                at += pw
            return Multi(tuple(out))
        return None
    if isinstance(y, int):
        return bitop_c(E, n, op, x, y, soft=True)
    return None


def bitop_c(E, n, op, x, k, soft=False):
    if isinstance(x, int):
        return {'and': x & k, 'or': x | k, 'xor': x ^ k}[op]
    full = (1 << n) - 1
    sign = 1 << (n - 1)
    if isinstance(x, Val) and x.w == n:
        if op == 'and':
            if k == 0:
                return 0
            if k == full:
                return x
            if k == sign - 1:
                return fabs(E, n, x)
        elif op == 'or':
            if k == 0:
                return x
            if k == 1:
                return x if isinstance(x, OrOne) else OrOne(x)
            if k == sign:
                return fneg(E, n, fabs(E, n, x))
            if k == full:
                return full
        elif op == 'xor':
            if k == 0:
                return x
            if k == sign:
                return fneg(E, n, x)
    if soft:
        return None
    b = x.bits(E) if isinstance(x, Val) else x
    kk = z3.BitVecVal(k, n)
    r = z3.simplify({'and': lambda: b & kk, 'or': lambda: b | kk, 'xor': lambda: b ^ kk}[op]())
    return r.as_long() if z3.is_bv_value(r) else r


def int2fp(E, w, x, n, signed):
    if x is UNDEF:
        return UNDEF
    if not isinstance(x, int):
        if isinstance(x, (z3.BoolRef, Cmp)):
            x = int(E.decide(x))
        else:
            x = E.concretize(E.to_bv(x, n), n, limit=40)
    if signed and x >> (n - 1):
        x -= 1 << n
    return enc(w, Fraction(x))


def fp2int(E, w, x, n, signed):
    if x is UNDEF:
        return UNDEF
    x = to_val(E, w, x)
    if isinstance(x, int):
        k, s, c = dec(w, x)
        from .engine import Unsupported
        if k != 'fin':
            raise Unsupported('conversion of a non-finite value to an integer')
        t = int(c)
        return t & ((1 << n) - 1)
    from .engine import Unsupported
    raise Unsupported('symbolic conversion to an integer')


def fpext(E, x):
    if isinstance(x, int):
        if isnan_b(32, x):
            return (x >> 31) << 63 | 0x7ff8000000000000
        return f2b(64, b2f(32, x))
    if x is UNDEF:
        return UNDEF
    x = to_val(E, 32, x)
    if isinstance(x, int):
        return fpext(E, x)
    if isinstance(x, OrOne) or rng(E, x) is None:
        return opaque(E, 64, 'fpext', x)
    r = Aff(64, x.terms, x.const, x.g, x.lo, x.hi)
    r.fixed = x.fixed
    return r


def fptrunc(E, x):
    if isinstance(x, int):
        k, s, c = dec(64, x)
        if k == 'nan':
            return s << 31 | 0x7fc00000
        if k == 'inf':
            return inf(32, s)
        return enc(32, c, neg0=bool(s))
    if x is UNDEF:
        return UNDEF
    x = to_val(E, 64, x)
    if isinstance(x, int):
        return fptrunc(E, x)
    if isinstance(x, Aff) and rng(E, x) is not None and fits(E, 32, x):
        r = Aff(32, x.terms, x.const, x.g, x.lo, x.hi)
        r.fixed = x.fixed
        return r
    if isinstance(x, Aff) and rng(E, x) is not None and x.n == 1 and x.const == 0:
        (a, c), = x.terms.items()
        if a.w == 32 and a.kind not in ('int', 'err') and is_pow2(c):
            return lossy(E, 32, atom_aff(a), Fraction(c))
    if E.inexact == 'err' and isinstance(x, Aff) and rng(E, x) is not None:
        return rounded(E, 32, x)
    return opaque(E, 32, 'fptrunc', x)


def ldmxcsr(E, a):
    v = E.load1(a[0], 4)
    E.notes.append(('mxcsr', v))
    if isinstance(v, int) and v & 0xe040:
        from .engine import Violation
        raise Violation('mismatch', 'rounding or subnormal handling of the processor is changed (mxcsr %#x)' % v)
    if not isinstance(v, int):
        from .engine import Unsupported
        raise Unsupported('symbolic mxcsr')
    return None
