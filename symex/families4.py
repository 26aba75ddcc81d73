"""Harnesses: maxima, vectors of accumulators, special values, one-call routines, memory."""
from fractions import Fraction
import z3
from . import fp, spec
from .fp import pow2
from .spec import FM, NC, BASE, as_aff
from .acc import Acc, Model, model, total
from .families import scalar, vector, expect_all, absv
from .families2 import mb
from .families3 import convert
from .ir import UNDEF


# -- R10 -------------------------------------------------------------------------------------------------------------
def magnitude(X, w, v):
    """the bits of |v| without the sign, as an unsigned number"""
    b = X.bits(v, w)
    if isinstance(b, int):
        return b & ((1 << (w - 1)) - 1)
    return z3.Extract(w - 2, 0, b)


def assume_no_nan(X, w, v):
    if X.conc:
        if fp.isnan_b(w, v):
            from .worlds import Infeasible
            raise Infeasible()
        return
    X.E.assume(z3.ULE(magnitude(X, w, v), z3.BitVecVal(fp.inf(w, 0), w - 1)))


def is_max(X, label, w, got, vals):
    """got is the largest of the magnitudes of vals"""
    if not vals:
        X.eq(label, w, got, 0)
        return
    g = magnitude(X, w, got)
    ms = [magnitude(X, w, v) for v in vals]
    if all(isinstance(m, int) for m in ms + [g]):
        X.ensure(label, g == max(ms) and got >> (w - 1) == 0)
        return
    c = lambda m: z3.BitVecVal(m, w - 1) if isinstance(m, int) else m
    b = X.bits(got, w)
    b = z3.BitVecVal(b, w) if isinstance(b, int) else b
    X.ensure(label, z3.And([z3.UGE(c(g), c(m)) for m in ms] + [z3.Or([c(g) == c(m) for m in ms]), z3.Extract(w - 1, w - 1, b) == 0]))


def h_amax(X, t, N, inc, wild=False, infs=()):
    """wild: any bit pattern but NaN (infinities included); otherwise any finite values, with infinities at the given (position, part)"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    mk = (lambda n: X.anyval(n, w)) if wild else (lambda n: X.val(n, w, fm.emax))
    cs = [[mk('x%d%s' % (n, 'ri'[c])) for n in range(N)] for c in range(nc)]
    for n, c in infs:
        cs[c][n] = fp.inf(w, n & 1)
    if wild:
        for c in cs:
            for v in c:
                assume_no_nan(X, w, v)
    V = X.buf('x', w, ((N - 1) * inc + 1) * nc if N else 0, {n * inc * nc + c: cs[c][n] for n in range(N) for c in range(nc)}, ro=True)
    if nc == 1:
        got = [X.call('binnedBLAS_%samax' % t, t, N, V, inc)]
    else:
        o = X.buf('amax', w, 2)
        X.call('binnedBLAS_%samax_sub' % t, None, N, V, inc, o)
        got = [X.get(o, c) for c in range(2)]
    for c in range(nc):
        if wild:
            is_max(X, 'largest magnitude of part %d' % c, w, got[c], cs[c])
        else:
            same_max(X, 'largest magnitude of part %d' % c, w, got[c], [absv(X, w, v) for v in cs[c]])


def same_max(X, label, w, got, mags):
    if X.conc:
        is_max(X, label, w, got, mags)
        return
    e = 0
    for m in mags:
        if m == fp.inf(w, 0) and isinstance(m, int):
            X.eq(label, w, got, m)
            return
        e = fp.vmax(X.E, w, e, m)
    X.eq(label, w, got, e)


def h_amaxm(X, t, N, incx, incy, wild=False, infs=()):
    """largest magnitude among the products; complex: among the products making up each part"""
    fm, nc = FM[t], NC[t]
    w = fm.w
    E = X.E
    xs, ys = [[None] * N for _ in range(nc)], [[None] * N for _ in range(nc)]
    X.split(fm, 0)
    for n in range(N):
        for c in range(nc):
            xs[c][n], ys[c][n] = (X.anyval('x%d%s' % (n, 'ri'[c]), w), X.anyval('y%d%s' % (n, 'ri'[c]), w)) if wild else X.pair('x%d%s' % (n, 'ri'[c]), 'y%d%s' % (n, 'ri'[c]), w)
    terms = [[] for _ in range(nc)]
    for n, c in infs:
        # an infinity times a non-zero power of two in both parts of the other vector
        xs[c][n] = fp.inf(w, n & 1)
        for j in range(nc):
            ys[j][n] = fp.enc(w, -pow2(3))
    for n in range(N):
        for i in range(nc):
            for j in range(nc):
                if any(n == a and i == b for a, b in infs):
                    v = fp.inf(w, 0)
                elif wild:
                    v = fp.fmul(E, w, xs[i][n], ys[j][n])
                    assume_no_nan(X, w, v)
                else:
                    v = X.product(w, xs[i][n], ys[j][n], fm.hi(0))
                terms[i ^ j].append(v)
    U = X.buf('x', w, ((N - 1) * incx + 1) * nc if N else 0, {n * incx * nc + c: xs[c][n] for n in range(N) for c in range(nc)}, ro=True)
    V = X.buf('y', w, ((N - 1) * incy + 1) * nc if N else 0, {n * incy * nc + c: ys[c][n] for n in range(N) for c in range(nc)}, ro=True)
    if nc == 1:
        got = [X.call('binnedBLAS_%samaxm' % t, t, N, U, incx, V, incy)]
    else:
        o = X.buf('amaxm', w, 2)
        X.call('binnedBLAS_%samaxm_sub' % t, None, N, U, incx, V, incy, o)
        got = [X.get(o, c) for c in range(2)]
    for c in range(nc):
        if wild:
            is_max(X, 'largest product of part %d' % c, w, got[c], terms[c])
        else:
            same_max(X, 'largest product of part %d' % c, w, got[c], [absv(X, w, v) for v in terms[c]])


# -- R23 -------------------------------------------------------------------------------------------------------------
def h_baddv(X, t, fold, N, incx, incy, sx, sy):
    """sx, sy: starting states per accumulator and part"""
    nc = NC[t]
    A = Acc(X, t, fold, 'X', list(sx), None, ro=True, count=N, step=incx)
    B = Acc(X, t, fold, 'Y', list(sy), None, count=N, step=incy)
    ms = []
    for e in range(N):
        row = [model(B, c, e) for c in range(nc)]
        for c in range(nc):
            row[c].merge(model(A, c, e))
        ms.append(row)
    X.call('binned_%sb%sbaddv' % (t, t), None, fold, N, A.pbuf, incx, B.pbuf, incy)
    for e in range(N):
        expect_all(B, ms[e], 'entry %d' % e, e)
    B.check_gaps()


# -- R24, R25: one operation on the same contents in two layouts ------------------------------------------------------
def number(X, t, name, js):
    """(component values, argument)"""
    return scalar(X, t, name, js)


def arg_of(X, t, vs, name='arg'):
    return (BASE[t], vs[0]) if NC[t] == 1 else X.buf(name, FM[t].w, 2, list(vs), ro=True)


def like(X, t, fold, name, vals, form, ro=False):
    """an accumulator with the given contents: per part a list of (primary, carry), or None"""
    return Acc(X, t, fold, name, [None if v is None else ('raw', [a for a, _ in v], [b for _, b in v]) for v in vals], form, ro)


def apply(X, t, op, fold, Y, arg=None, other=None, rt=None):
    """one operation; returns the converted values for 'out'"""
    f = mb(Y.form)
    p = 'binned_%s%s' % (t, f)
    if op in ('add', 'update', 'conv'):
        X.call(p + t + op, None, fold, arg, *Y.args())
    elif op == 'rupdate':
        X.call(p + BASE[t] + 'update', None, fold, arg, *Y.args())
    elif op == 'deposit':
        X.call(p + t + 'deposit', None, fold, arg, *Y.pargs())
    elif op in ('renorm', 'negate', 'setzero'):
        X.call(p + op, None, fold, *Y.args())
    elif op == 'merge':
        X.call(p + t + f + 'add', None, fold, *(other.args() + Y.args()))
    elif op == 'set':
        X.call(p + t + f + 'set', None, fold, *(other.args() + Y.args()))
    elif op == 'rset':
        X.call(p + BASE[t] + f + 'set', None, fold, *(other.args() + Y.args()))
    elif op == 'out':
        return convert(X, t, fold, Y)
    else:
        raise ValueError(op)


def same(X, label, w, A, ca, B, cb):
    for k in range(A.fold):
        X.eq('%s, primary %d' % (label, k), w, A.pri(k, ca), B.pri(k, cb))
        X.eq('%s, carry %d' % (label, k), w, A.car(k, ca), B.car(k, cb))


NEEDS = {'add': 'x', 'update': 'x', 'conv': 'x', 'deposit': 'x', 'rupdate': 'r', 'merge': 'o', 'set': 'o', 'rset': 'ro', 'renorm': '', 'negate': '', 'setzero': '', 'out': ''}


def inputs(X, t, op, fold, js, other):
    """values of the extra operand"""
    n = NEEDS[op]
    if n == 'x':
        return scalar(X, t, 'x', js)[0], None
    if n == 'r':
        return scalar(X, BASE[t], 'x', js[:1])[0], None
    if n in ('o', 'ro'):
        ot = t if n == 'o' else BASE[t]
        O = Acc(X, ot, fold, 'O', list(other), None, ro=True)
        return None, [O.start[c][2] for c in range(NC[ot])]
    return None, None


def h_layout(X, t, op, fold, start, form, js=None, other=None, form2=None):
    """the packed operation and the strided one leave the same bits in corresponding places"""
    nc, w = NC[t], FM[t].w
    P = Acc(X, t, fold, 'P', list(start), None)
    S = like(X, t, fold, 'S', [P.start[c][2] for c in range(nc)], form)
    vs, ov = inputs(X, t, op, fold, js, other)
    out = []
    for Y, fo in ((P, None), (S, form2 or form)):
        arg = None if vs is None else arg_of(X, t if NEEDS[op] == 'x' else BASE[t], vs, 'x' + Y.name)
        ot = BASE[t] if NEEDS[op] == 'ro' else t
        O = None if ov is None else like(X, ot, fold, 'O' + Y.name, ov, fo, ro=True)
        out.append(apply(X, t, op, fold, Y, arg, O))
    for c in range(nc):
        if op == 'out':
            X.eq('converted part %d' % c, w, out[0][c], out[1][c])
        else:
            same(X, '%s part %d' % (op, c), w, P, c, S, c)
    P.check_gaps()
    S.check_gaps()


def h_parts(X, t, op, fold, start, form=None, js=None, other=None):
    """an operation on a complex accumulator does to each part what the real one does to a real accumulator"""
    r, w = BASE[t], FM[t].w
    Z = Acc(X, t, fold, 'Z', list(start), form)
    parts = [like(X, r, fold, 'R%d' % c, [Z.start[c][2]], form) for c in range(2)]
    vs, ov = inputs(X, t, op, fold, js, other)
    ot = r if NEEDS[op] == 'ro' else t
    got = apply(X, t, op, fold, Z, None if vs is None else arg_of(X, t if NEEDS[op] == 'x' else r, vs, 'x'), None if ov is None else like(X, ot, fold, 'OZ', ov, form, ro=True))
    for c in range(2):
        Y = parts[c]
        if op == 'rset' and c == 1:
            apply(X, r, 'setzero', fold, Y)
        else:
            rop = {'rset': 'set', 'rupdate': 'update'}.get(op, op)
            v = None if vs is None else arg_of(X, r, [vs[c if len(vs) > 1 else 0]])
            e = apply(X, r, rop, fold, Y, v, None if ov is None else like(X, r, fold, 'OR%d' % c, [ov[c if len(ov) > 1 else 0]], form, ro=True))
        if op == 'out':
            X.eq('converted part %d' % c, w, got[c], e[0])
        else:
            same(X, '%s part %d' % (op, c), w, Z, c, Y, 0)
    Z.check_gaps()


# -- R20 -------------------------------------------------------------------------------------------------------------
DEFAULTFOLD = 3


def h_wrapper(X, t, op, N, incx, Js, fold=None, incy=1):
    """one-call routine = empty accumulator, add the data, convert; fold None: the default fold of the configuration"""
    nc, fm = NC[t], FM[t]
    w = fm.w
    E = X.E
    U = V = None
    if op.startswith('dot'):
        X.split(fm, min(Js))
        xs = [[None] * N for _ in range(nc)]
        ys = [[None] * N for _ in range(nc)]
        terms = [[] for _ in range(nc)]
        for n in range(N):
            for c in range(nc):
                xs[c][n], ys[c][n] = X.pair('x%d%s' % (n, 'ri'[c]), 'y%d%s' % (n, 'ri'[c]), w)
            for i in range(nc):
                for j in range(nc):
                    terms[i ^ j].append(X.product(w, xs[i][n], ys[j][n], fm.hi(Js[i ^ j])))
        for c in range(nc):
            X.group(w, terms[c], fm.lo(Js[c]), fm.hi(Js[c]))
        V = X.buf('y', w, ((N - 1) * incy + 1) * nc if N else 0, {n * incy * nc + c: ys[c][n] for n in range(N) for c in range(nc)}, ro=True)
        U = X.buf('x', w, ((N - 1) * incx + 1) * nc if N else 0, {n * incx * nc + c: xs[c][n] for n in range(N) for c in range(nc)}, ro=True)
    else:
        xs, U = vector(X, t, 'x', N, incx, Js)
    f = DEFAULTFOLD if fold is None else fold
    r = BASE[t] if op in ('asum', 'nrm2') else t
    pre = '' if fold is None else 'r'
    name = 'reproBLAS_' + pre + {('asum', 'z'): 'dzasum', ('asum', 'c'): 'scasum', ('nrm2', 'z'): 'dznrm2', ('nrm2', 'c'): 'scnrm2'}.get((op, t), t + op)
    data = [N, U, incx] + ([V, incy] if V else [])
    lead = [] if fold is None else [fold]
    if NC[r] == 2:
        o = X.buf('result', w, 2)
        X.call(name + '_sub', None, *(lead + data + [o]))
        got = [X.get(o, c) for c in range(2)]
    else:
        got = [X.call(name, r, *(lead + data))]
    if not N:
        for c, g in enumerate(got):
            X.eq('result for no data, part %d' % c, w, g, 0)
    A = Acc(X, r, f, 'A', 'zero')
    if op == 'nrm2':
        scl = X.call('binnedBLAS_%sb%sssq' % (r, t), r, f, N, U, incx, (r, 0), *A.args())
        v = convert(X, r, f, A)[0]
        if w == 32:
            v = fp.fpext(E, v)
            z = fp.fmul(E, 64, fp.fpext(E, scl), fp.sqrt(E, 64, v))
            e = [fp.fptrunc(E, z)]
        else:
            e = [fp.fmul(E, 64, scl, fp.sqrt(E, 64, v))]
    else:
        X.call('binnedBLAS_%sb%s%s' % (r, t, op), None, *([f] + data + A.args()))
        e = convert(X, r, f, A)
    for c, (g, v) in enumerate(zip(got, e)):
        X.eq('result part %d' % c, w, g, v)
