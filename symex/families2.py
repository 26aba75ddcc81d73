"""Harnesses: renormalisation, deferred renormalisation, helpers, copying."""
from fractions import Fraction
import z3
from . import fp, spec
from .fp import pow2
from .spec import FM, NC, BASE, as_aff
from .acc import Acc, Model, model, total
from .families import scalar, expect_all
from .ir import UNDEF


def mb(form):
    return 'b' if form is None else 'm'


# -- R15 -------------------------------------------------------------------------------------------------------------
def h_renorm(X, t, fold, start, form=None):
    """start per component: a state; the renormalised accumulator holds the same totals in canonical form"""
    Y = Acc(X, t, fold, 'Y', list(start), form)
    X.call('binned_%s%srenorm' % (t, mb(form)), None, fold, *Y.args())
    for c in range(NC[t]):
        I, tot, vals = Y.start[c]
        if I is None:
            Y.expect_same('part %d' % c, c)
        else:
            Y.expect('renormalised part %d' % c, I, tot, c)
    Y.check_gaps()


# -- R14 -------------------------------------------------------------------------------------------------------------
def h_deferred(X, t, fold, start, Jb, N, form=None, rb=False, same=False, small=False):
    """update for a bound of index Jb, N deposits within the bound, one renormalisation.

    rb: the bound is real although the accumulator is complex; same: all deposits share one value (signs vary)"""
    fm = FM[t]
    nc = NC[t]
    Y = Acc(X, t, fold, 'Y', start, form)
    ms = [model(Y, c) for c in range(nc)]
    f = mb(form)
    if rb:
        Jb = (Jb[0],) * nc
        b = X.val('bound', fm.w, fm.hi(Jb[0]), fm.lo(Jb[0]))
        X.call('binned_%s%s%supdate' % (t, f, BASE[t]), None, fold, (BASE[t], b), *Y.args())
    else:
        _, arg = scalar(X, t, 'bound', Jb)
        X.call('binned_%s%s%supdate' % (t, f, t), None, fold, arg, *Y.args())
    for c in range(nc):
        ms[c].shift_to(Jb[c])
    if N == 0:
        expect_all(Y, ms, 'updated')
        Y.check_gaps()
        return
    for n in range(N):
        vs = [X.val('x%d%s' % (0 if same else n, 'ri'[c]), fm.w, fm.hi(Jb[c])) for c in range(nc)]
        if same == 'alt' and n % 2:
            vs = [fp.fneg(X.E, fm.w, v) for v in vs]
        arg = (BASE[t], vs[0]) if nc == 1 else X.buf('d%d' % n, fm.w, 2, vs, ro=True)
        X.call('binned_%s%s%sdeposit' % (t, f, t), None, fold, arg, *Y.pargs())
        for c in range(nc):
            ms[c].add(vs[c])
    X.call('binned_%s%srenorm' % (t, f), None, fold, *Y.args())
    expect_all(Y, ms, 'deferred')
    Y.check_gaps()


# -- R17 -------------------------------------------------------------------------------------------------------------
def rawvals(X, t, fold, name, kind='any'):
    w = FM[t].w
    return [X.anyval('%s%d' % (name, i), w) for i in range(2 * fold * NC[t])]


def h_set(X, tx, ty, fold, formx=None, formy=None):
    """Y set from X: every element copied; a real source clears the imaginary part"""
    w = FM[tx].w
    v = rawvals(X, tx, fold, 'x')
    nx = NC[tx]
    A = Acc(X, tx, fold, 'X', [('raw', v[c::2 * nx], v[nx + c::2 * nx]) for c in range(nx)], formx, ro=True)
    B = Acc(X, ty, fold, 'Y', None, formy)
    X.call('binned_%s%s%s%sset' % (ty, mb(formx), tx, mb(formx)), None, fold, *(A.args() + B.args()))
    for c in range(NC[ty]):
        for k in range(fold):
            ep, ec = A.start[c][2][k] if c < nx else (0, 0)
            X.same_bits('primary %d of part %d' % (k, c), w, B.pri(k, c), ep)
            X.same_bits('carry %d of part %d' % (k, c), w, B.car(k, c), ec)
    B.check_gaps()


def h_setzero(X, t, fold, form=None, raw=True):
    v = rawvals(X, t, fold, 'y') if raw else None
    nc = NC[t]
    Y = Acc(X, t, fold, 'Y', [('raw', v[c::2 * nc], v[nc + c::2 * nc]) for c in range(nc)] if raw else None, form)
    X.call('binned_%s%ssetzero' % (t, mb(form)), None, fold, *Y.args())
    for c in range(nc):
        Y.expect_zero('cleared part %d' % c, c)
    Y.check_gaps()


def h_negate(X, t, fold, start, form=None, twice=False):
    """negation represents the exact negative, bin by bin; negating twice, adding back and renormalising agree with it"""
    nc = NC[t]
    fm = FM[t]
    Y = Acc(X, t, fold, 'Y', list(start), form)
    X.call('binned_%s%snegate' % (t, mb(form)), None, fold, *Y.args())
    if twice:
        X.call('binned_%s%snegate' % (t, mb(form)), None, fold, *Y.args())
        for c in range(nc):
            if Y.start[c][0] is None:
                Y.expect_same('negated twice, part %d' % c, c)
            else:
                Y.expect('negated twice, part %d' % c, Y.start[c][0], Y.start[c][1], c)
        Y.check_gaps()
        return
    # bring to canonical form, then the totals are the negated ones
    X.call('binned_%s%srenorm' % (t, mb(form)), None, fold, *Y.args())
    for c in range(nc):
        I, tot, vals = Y.start[c]
        if I is None:
            if Y.init[c] == 'zero':
                Y.expect_zero('negated empty part %d' % c, c)
            continue
        Y.expect('negated part %d' % c, I, [neg(x) for x in tot], c)
    Y.check_gaps()


def neg(x):
    return fp.scale_exact(x, -1) if isinstance(x, fp.Aff) else -x


def h_cancel(X, t, fold, start, form=None):
    """an accumulator merged with its negation represents zero"""
    nc = NC[t]
    A = Acc(X, t, fold, 'X', list(start), form)
    B = Acc(X, t, fold, 'Y', None, form)
    f = mb(form)
    X.call('binned_%s%s%s%sset' % (t, f, t, f), None, fold, *(A.args() + B.args()))
    X.call('binned_%s%snegate' % (t, f), None, fold, *B.args())
    X.call('binned_%s%s%s%sadd' % (t, f, t, f), None, fold, *(A.args() + B.args()))
    for c in range(nc):
        I = A.start[c][0]
        B.expect('cancelled part %d' % c, I, [Fraction(0)] * fold, c)


def h_sizes(X, t, fold):
    fm = FM[t]
    n = 2 * fold * NC[t]
    sz = {'d': 'dbsize', 's': 'sbsbze', 'z': 'zbsize', 'c': 'cbsize'}[t]
    X.ensure('size', X.call('binned_' + sz, 'n', fold) == n * fm.size)
    X.ensure('count', X.call('binned_%sbnum' % t, 'i', fold) == n)
    p = X.call('binned_%sballoc' % t, 'p', fold)
    b = X.wrap(X.own(p), 'allocated', fm.w, n)
    X.ensure('allocated size', X.size_of(b) >= n * fm.size)
    X.call('binned_%sbsetzero' % t, None, fold, b)
    for i in range(n):
        X.eq('element %d' % i, fm.w, X.get(b, i), 0)


# -- R16 -------------------------------------------------------------------------------------------------------------
def mag(w, b):
    return b & ((1 << (w - 1)) - 1) if isinstance(b, int) else z3.Extract(w - 2, 0, b)


def ult(a, b, n):
    """unsigned a < b; b concrete"""
    return a < b if isinstance(a, int) else z3.ULT(a, z3.BitVecVal(b, n))


def both(*cs):
    if all(isinstance(c, bool) for c in cs):
        return all(cs)
    return z3.And(*cs)


def either(*cs):
    if all(isinstance(c, bool) for c in cs):
        return any(cs)
    return z3.Or(*cs)


def implies(a, b):
    return either(invert(a), b)


def invert(a):
    return not a if isinstance(a, bool) else z3.Not(a)


def equal(a, b):
    r = a == b
    return bool(r) if not isinstance(r, z3.ExprRef) else r


def count(conds, n=32):
    """number of true conditions"""
    if all(isinstance(c, bool) for c in conds):
        return sum(conds)
    r = z3.BitVecVal(0, n)
    for c in conds:
        r = r + z3.If(c, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return r


def as_int(r, n=32):
    """an int returned by a call, for comparison with count()"""
    if isinstance(r, int):
        return r
    return r


def h_index(X, t):
    """index of a finite number: the number of bin boundaries above it"""
    fm = FM[t]
    w = fm.w
    x = X.anyval('x', w)
    b = X.bits(x, w)
    m = mag(w, b)
    r = X.call('binned_%sindex' % t, 'i', (t, x))
    want = count([ult(m, fp.enc(w, pow2(fm.hi(i))), w - 1) for i in range(1, fm.maxindex + 1)])
    X.ensure('index', implies(ult(m, fp.inf(w), w - 1), equal(r, want)))


def h_mindex(X, t):
    """index of an accumulator from any primary part of a bin (anywhere in its binade), and the bin-0 test"""
    fm = FM[t]
    w = fm.w
    F = fp.FMT[w]
    x = X.anyval('x', w)
    b = X.bits(x, w)
    p = X.buf('p', w, 1, [x], ro=True)
    r = X.call('binned_%smindex' % t, 'i', p)
    r0 = X.call('binned_%smindex0' % t, 'i', p)
    f = (b >> F['mb']) & ((1 << F['ebits']) - 1) if isinstance(b, int) else z3.Extract(w - 2, F['mb'], b)
    cs = []
    for i in range(fm.maxindex + 1):
        e = fm.ufp(i) + F['bias']
        cs.append(implies(equal(f, e), equal(r, i)))
        cs.append(implies(equal(f, e), equal(nz(r0), i == 0) if isinstance(r0, int) else (z3.BoolVal(i == 0) == nz(r0))))
    X.ensure('index of an accumulator', both(*cs))


def nz(r):
    return r != 0


def h_bins(X, t, i):
    """the table of starting values"""
    fm = FM[t]
    w = fm.w
    p = X.call('binned_%smbins' % t, 'p', i)
    b = X.wrap(p, 'bins', w)
    off = X.base_index(p, w)
    for k in range(fm.maxfold if i else 1):
        X.eq('bin %d' % (i + k), w, X.get(b, off + k), fp.enc(w, fm.base(i + k)))


def h_ufp(X, t):
    """the leading power of two of a normal number; nothing of the significand is left, and zero gives zero"""
    fm = FM[t]
    w = fm.w
    F = fp.FMT[w]
    x = X.anyval('x', w)
    b = X.bits(x, w)
    r = X.call('binned_ufp' if t == 'd' else 'binned_ufpf', t, (t, x))
    rb = X.bits(r, w)
    emask = ((1 << F['ebits']) - 1) << F['mb']
    f = b & (emask if isinstance(b, int) else z3.BitVecVal(emask, w))
    m = mag(w, b)
    X.ensure('unit in the first place', implies(both(ult(m, fp.inf(w), w - 1), invert(ult(m, fp.enc(w, pow2(1 - F['bias'])), w - 1))), equal(rb, f)))
    X.ensure('unit in the first place of zero', implies(equal(m, 0), equal(mag(w, rb), 0)))


def h_scale(X, t):
    """scale of any finite number: a power of the bin width at the documented distance (below the normal range only the upper one)"""
    fm = FM[t]
    w = fm.w
    F = fp.FMT[w]
    x = X.anyval('x', w, finite=True)
    m = mag(w, X.bits(x, w))
    r = X.concrete(X.call('binned_%sscale' % t, t, (t, x)), w)
    k, s, c = fp.dec(w, r)
    if k != 'fin' or c <= 0 or not fp.is_pow2(c):
        X.fail('scale', 'not a power of two: %#x' % r)
    c = Fraction(c)
    l = c.numerator.bit_length() - c.denominator.bit_length()
    X.ensure('the scale is a power of the bin width', l % fm.W == 0)
    up = l + fm.W + 2
    if up < F['emax']:
        X.ensure('upper distance', ult(m, fp.enc(w, pow2(up)), w - 1))
    lo = l - fm.p - fm.W - 1
    if lo >= F['gmin']:
        X.ensure('lower distance', either(ult(m, fp.enc(w, pow2(1 - F['bias'])), w - 1), invert(ult(m, fp.enc(w, pow2(lo)) + 1, w - 1))))


def h_denorm(X, t, fold, I):
    """the quick check for subnormal bits never overlooks any (a zero answer promises that no bin of the window has any)"""
    fm = FM[t]
    w = fm.w
    F = fp.FMT[w]
    Y = Acc(X, t, fold, 'Y', [('at', I)] * NC[t], (1, 1))
    r = X.call('binned_%smdenorm' % t, 'i', fold, Y.pbuf)
    # slices of the last bin are multiples of its ulp; a remainder below it can be subnormal when the ulp is below the normal range
    low = fm.ulp(I + fold - 1)
    if low <= 2 - F['bias']:
        X.ensure('subnormal bits', nz(r))
