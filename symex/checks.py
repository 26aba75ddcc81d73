"""Which obligations decide which property."""
import json, os, random, itertools
from fractions import Fraction
from . import families as F, families2 as G, families3 as H, families4 as K, families5 as M, families6 as Q, families7 as U, families8 as V, families9 as P
from .runner import Job, bundle
from .lemmas import all_lemmas
from .spec import FM, NC, BASE
from .build import REPO

TYPES = 'dszc'


def mi(t):
    return FM[t].maxindex


def spread(t, quick):
    """window starts / indices looked at"""
    m = mi(t)
    return range(m + 1)


def pairs(t, a, b):
    """index tuples for a type: the second part, when there is one, uses b"""
    return (a,) if NC[t] == 1 else (a, b)


def add_steps(seed, quick, forms=(None, (1, 1), (2, 3)), types=TYPES, folds=(2, 3, 4), extra=()):
    """one addition from an arbitrary accumulator, for every window start and the index relations that matter"""
    R = random.Random(seed)
    out = []
    for t in types:
        m = mi(t)
        for fi, fold in enumerate(folds):
            for I in range(m + 1):
                rel = [I, I - 1, I - fold, 0]
                if not quick:
                    rel += [I - 2, I - fold + 1, I - fold - 1, I + 1, I + fold, m]
                js = sorted({j for j in rel if 0 <= j <= m})
                if quick and NC[t] == 2:
                    js = js[:2]
                for n, j in enumerate(js):
                    J2 = min(m, max(0, I + R.randrange(-2, 3)))
                    form = forms[(I + fi + n) % len(forms)]
                    out.append(Job(F.h_add, t=t, fold=fold, js=[pairs(t, j, J2)], start=[('at', I)] if NC[t] == 1 else [('at', I), ('at', min(m, max(0, J2 + R.randrange(-1, 3))))], form=form, weight=.08 * NC[t]))
            for j in range(m + 1):
                if quick and (j + fi) % 3:
                    continue
                out.append(Job(F.h_add, t=t, fold=fold, js=[pairs(t, j, R.randrange(m + 1))], start='zero', form=forms[j % len(forms)], weight=.08 * NC[t]))
    return out


def lighten(t, quick, js):
    """at most three components at the last index, where every value forks three ways"""
    if not quick or NC[t] == 1:
        return js
    n, out = 0, []
    for j in js:
        j = list(j)
        for c in range(2):
            if j[c] == mi(t):
                n += 1
                if n > 3:
                    j[c] -= 1
        out.append(tuple(j))
    return out


def heavy(t, js):
    """three values of both parts at the end of the range fork much more"""
    n = sum(1 for j in js for x in j if x >= mi(t) - 1)
    return .3 * NC[t] * (1 + (n > 1) * n * (2 if NC[t] == 2 else .3)) * (2 if len(js) > 2 else 1)


def orders(seed, quick, types=TYPES):
    R = random.Random(seed + 1)
    out = []
    for t in types:
        m = mi(t)
        for fold in (2, 3) if quick else (2, 3, 4, 5, 8):
            seqs = [[0, 1], [1, 0, 0], [5, 3, 5], [m, m - 1, m], [3, 3 + fold, 2], [m, 0]]
            for _ in range(3 if quick else 30):
                b = R.randrange(m + 1)
                seqs.append([max(0, min(m, b + R.randrange(-fold - 1, fold + 2))) for _ in range(3 if quick else 4)])
            for s in seqs:
                perm = list(range(len(s)))
                ps = [perm[::-1]] if quick or NC[t] == 2 else list(itertools.permutations(perm))[1:8]
                for p in ps:
                    js = lighten(t, quick, [pairs(t, j, max(0, min(m, j + R.randrange(-2, 3)))) for j in s])
                    out.append(Job(F.h_order, t=t, fold=fold, js=js, perm=p, form=R.choice([None, (2, 3)]), weight=heavy(t, js)))
    return out


def r01(tier, seed):
    q = tier == 'quick'
    js = add_steps(seed, q, folds=(2, 3, 4) if q else (2, 3, 4, 5, 6, 8))
    js += orders(seed, q)
    js += all_lemmas()
    for t in TYPES:
        for fold in (5, 9, FM[t].maxfold) if q else range(5, FM[t].maxfold + 1, 3):
            for I in (0, 1, 4, mi(t) - 1):
                js.append(Job(F.h_add, t=t, fold=fold, js=[pairs(t, I, I)], start=('at', min(mi(t), I + 1)), form=(2, 3) if fold % 2 else None, weight=.5))
    return js


def r02(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        m = mi(t)
        for fold in (2, 3, 4) if q else (2, 3, 4, 5, 6, 8, FM[t].maxfold):
            for I in range(m + 1):
                rel = [I, I - 1, I + 1, I + fold - 1, I - fold] if q else [I, I - 1, I + 1, I + fold - 1, I + fold, I - fold + 1, I - fold, I - fold - 1, 0, m]
                for n, J in enumerate(sorted({j for j in rel if 0 <= j <= m})):
                    a, b = ('at', I), ('at', J)
                    if NC[t] == 2:
                        a, b = [a, ('at', R.randrange(m + 1))], [b, ('at', R.randrange(m + 1))]
                    out.append(Job(F.h_merge, t=t, fold=fold, sx=a, sy=b, form=(None, (2, 3), (1, 1), (3, 2))[(I + n) % 4], weight=.03 * NC[t]))
            for form in (None, (2, 3)):
                for I in (0, 1, 7, m):
                    out.append(Job(F.h_merge, t=t, fold=fold, sx='zero', sy=('at', I), form=form, weight=.02))
                    out.append(Job(F.h_merge, t=t, fold=fold, sx=('at', I), sy='zero', form=form, weight=.02))
                    if NC[t] == 2:
                        out.append(Job(F.h_merge, t=t, fold=fold, sx=[('at', I), 'zero'], sy=['zero', ('at', 3)], form=form, weight=.02))
                out.append(Job(F.h_merge, t=t, fold=fold, sx='zero', sy='zero', form=form, weight=.02))
            for _ in range(6 if q else 40):
                b = R.randrange(m + 1)
                s = [max(0, min(m, b + R.randrange(-fold - 1, fold + 2))) for _ in range(3)]
                out.append(Job(F.h_split, t=t, fold=fold, js=lighten(t, q, [pairs(t, j, max(0, min(m, j + R.randrange(-2, 3)))) for j in s]), cut=R.randrange(0, 4), form=R.choice([None, (2, 3)]), weight=heavy(t, pairs(t, s[0], s[1]) and [pairs(t, j, j) for j in s])))
    return out


def kernel_jobs(ops, tier, seed):
    """ops: list of (harness, type, op)"""
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for h, t, op in ops:
        m = mi(t)
        n = 0
        for vec in ('avx', 'sse', 'sisd'):
            for fold in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7, 8, 10):
                Ns = list(range(0, 21)) + [23, 31, 32, 33, 47, 64, 65, 71] if q else list(range(0, 80)) + [96, 127, 128, 130]
                for N in Ns:
                    if q and (vec != 'avx' or fold == 5) and N > 12 and N not in (16, 17, 31, 33):
                        continue
                    if q and N > 8 and (N + fold) % 2:
                        continue
                    reps = [(1, True), (R.choice([2, 3]), False)] if N > 1 else [(1 + N % 2, True)]
                    for inc, _ in reps if not q or N < 9 else [reps[n % len(reps)]]:
                        n += 1
                        J = [3, 7, 0, 1, m, m - 1, m - fold, 11 % m][n % 8]
                        if q and N > 33 and J >= m - 1:
                            J = 9       # the last bins fork
                        st = ['zero', ('at', J), ('at', min(m, J + 1)), ('at', min(m, J + fold)), ('at', max(0, J - 1)), ('at', max(0, J - fold))][(n // 3) % 6]
                        J2 = max(0, min(m, J + R.randrange(-1, 3)))
                        form = [None, None, (2, 3)][n % 3]
                        wt = (.05 + N * .005 * fold / 3) * NC[t]
                        if h is F.h_sum:
                            out.append(Job(h, vec=vec, t=t, op=op, fold=fold, N=N, inc=inc, Js=pairs(t, J, J2), start=st, form=form, weight=wt))
                        else:
                            out.append(Job(h, vec=vec, t=t, op=op, fold=fold, N=N, incx=inc, incy=inc if n % 2 else R.choice([1, 2, 4]) if inc > 1 else 1, Js=pairs(t, J, J2), start=st, form=form, weight=wt * 2))
    return out


def long_jobs(ops, tier, seed):
    """vectors longer than a block of the kernels and longer than an accumulator's endurance, made of a few values that repeat"""
    q = tier == 'quick'
    R = random.Random(seed + 7)
    out = []
    for h, t, op in ops:
        m = mi(t)
        end = 2048 if FM[t].w == 64 else 512
        for vec in VECS:
            for fold in (2, 3) if q else (2, 3, 4, 5, 8):
                for N in (end // 2 + 1, end + 1, 2 * end + 1, 2 * end + 5) if q else (end // 4, end // 4 + 1, end // 2, end // 2 + 1, end, end + 1, 2 * end, 2 * end + 1, 3 * end + 5, 5 * end + 3):
                    period = R.choice([1, 1, 2, 3])
                    if q and vec != 'avx':
                        if N > end + 1 or fold > 2:
                            continue
                        period = 1
                    J = R.choice([3, 3, 0, R.randrange(m - 1)]) if N > end or not q else 3
                    J2 = max(0, min(m, J + R.randrange(-1, 2)))
                    N += period - 1     # every block holds every value
                    s = [('at', J), ('at', J2)][:1 if op == 'asum' else NC[t]]
                    kw = dict(inc=1) if h is F.h_sum else dict(incx=1, incy=1)
                    if h is F.h_sum and NC[t] == 2 and op == 'asum':
                        s = [('at', min(J, J2))]
                    out.append(Job(h, vec=vec, t=t, op=op, fold=fold, N=N, Js=pairs(t, J, J2), start=s, period=period, weight=2 + .001 * N * NC[t], **kw))
    return out


def r03(tier, seed):
    return long_jobs([(F.h_sum, t, 'sum') for t in TYPES], tier, seed) + kernel_jobs([(F.h_sum, t, 'sum') for t in TYPES], tier, seed)


def r04(tier, seed):
    return long_jobs([(F.h_sum, t, 'asum') for t in TYPES], tier, seed) + kernel_jobs([(F.h_sum, t, 'asum') for t in TYPES], tier, seed)


DOTS = [(F.h_dot, 'd', 'dot'), (F.h_dot, 's', 'dot'), (F.h_dot, 'z', 'dotu'), (F.h_dot, 'z', 'dotc'), (F.h_dot, 'c', 'dotu'), (F.h_dot, 'c', 'dotc')]


def r05(tier, seed):
    return long_jobs(DOTS, tier, seed) + kernel_jobs(DOTS, tier, seed)


def st(t, I, *more, J=None):
    """the same kind of state in every part; the second part at J"""
    return [('at', I) + more] if NC[t] == 1 else [('at', I) + more, ('at', I if J is None else J) + more]


def r14(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        m = mi(t)
        n = NC[t]
        for fold in (2, 3, 4) if q else (2, 3, 4, 5, 6, 8):
            for I in range(0, m + 1):
                for Jb in sorted({j for j in ([I, I - 1, I - fold, 0] if not q or n == 1 else [I, I - R.randrange(1, fold + 2)]) if j >= 0}):
                    form = (None, (2, 3), (1, 1))[(I + Jb) % 3]
                    for N in (0, R.choice([1, 2])) if q else (0, 1, 2, 3, 4):
                        if q and N == 0 and I % 3:
                            continue
                        J2 = max(0, min(m, Jb + R.randrange(-2, 3)))
                        out.append(Job(G.h_deferred, t=t, fold=fold, start=st(t, I, J=min(m, max(0, J2 + R.randrange(-1, 2)))), Jb=pairs(t, Jb, J2), N=N, form=form, rb=n == 2 and I % 4 == 1, weight=.06 * n * (N + .5)))
            for Jb in (0, 1, 6, m - 1, m):
                out.append(Job(G.h_deferred, t=t, fold=fold, start='zero', Jb=pairs(t, Jb, min(m, Jb + 1)), N=3, form=(2, 3) if fold % 2 else None, weight=.2 * n))
                for N in (6, 17) if q else (6, 17, 64):
                    if q and (n == 2 or fold > 3):
                        continue
                    out.append(Job(G.h_deferred, t=t, fold=fold, start=st(t, Jb), Jb=pairs(t, Jb, Jb), N=N, weight=.03 * N * n))
        # runs of the full documented length
        end = 2048 if FM[t].w == 64 else 512
        for Jb, fold in ([(3, 2)] if n == 1 else []) if q else [(0, 2), (0, 3), (3, 2), (4, 3), (m, 2), (m - 1, 3)]:
            for same in (True, 'alt', False) if not q else (True,) if t == 'd' else (True, False):
                out.append(Job(G.h_deferred, t=t, fold=fold, start=st(t, Jb), Jb=pairs(t, Jb, Jb), N=end, same=same, weight=40 * n * fold * end / 2048, limit=3600 if not q else 240))
    return out


def r15(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        m = mi(t)
        n = NC[t]
        for fold in (1, 2, 3) if q else (1, 2, 3, 4):
            for I in range(m + 1):
                form = (None, (2, 3), (1, 1), (3, 2))[(I + fold) % 4]
                w = ('wide', I) if fold <= 2 or n == 1 and not q else ('wide', I, [(I + R.randrange(fold)) % fold])
                s = [w] if n == 1 else [w, ('at', min(m, I + 1))] if I % 2 else [('at', I), w]
                out.append(Job(G.h_renorm, t=t, fold=fold, start=s, form=form, stubs=None, weight=.1 * 5 ** min(fold, 3) / 8))
        for fold in (4, 7, FM[t].maxfold) if q else range(4, FM[t].maxfold + 1):
            for k in range(fold) if not q else (0, 1, fold // 2, fold - 1):
                I = R.choice([0, 1, 3, m // 2, m])
                w = ('wide', I, [k])
                out.append(Job(G.h_renorm, t=t, fold=fold, start=[w] if n == 1 else [w, w], form=(None, (2, 3))[k % 2], stubs=None, weight=.1 + .02 * fold))
        for form in (None, (2, 3)):
            for fold in (2, 3, 4):
                out.append(Job(G.h_renorm, t=t, fold=fold, start=['zero'] * n, form=form, stubs=None))
                for b in specials(t):
                    out.append(Job(G.h_renorm, t=t, fold=fold, start=[('special', b)] * n, form=form, stubs=None))
                    if n == 2:
                        out.append(Job(G.h_renorm, t=t, fold=fold, start=[('special', b), ('wide', 4, [1])], form=form, stubs=None))
                        out.append(Job(G.h_renorm, t=t, fold=fold, start=[('wide', 4, [1]), ('special', b)], form=form, stubs=None))
                if n == 2:
                    out.append(Job(G.h_renorm, t=t, fold=fold, start=['zero', ('wide', 3, [0])], form=form, stubs=None))
                    out.append(Job(G.h_renorm, t=t, fold=fold, start=[('wide', 3, [0]), 'zero'], form=form, stubs=None))
    return out


def specials(t):
    w = FM[t].w
    return [0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48] if w == 64 else [0x7f80 << 16, 0xff80 << 16, 0x7fc0 << 16]


def r16(tier, seed):
    out = []
    for t in 'ds':
        out += [Job(h, t=t, weight=3) for h in (G.h_index, G.h_mindex, G.h_ufp, G.h_scale)]
        out += [Job(G.h_bins, t=t, i=i, weight=.05) for i in range(mi(t) + 1)]
    return out


def r17(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        m = mi(t)
        n = NC[t]
        mx = FM[t].maxfold
        for fold in range(1, mx + 1):
            out.append(Job(G.h_sizes, t=t, fold=fold, weight=.02))
        forms = [None, (1, 1), (2, 3), (3, 1)]
        for fold in (1, 2, 3, 4, 5, mx) if q else range(1, mx + 1):
            for fx in forms:
                for fy in forms:
                    if (fx is None) != (fy is None):
                        continue
                    out.append(Job(G.h_set, tx=t, ty=t, fold=fold, formx=fx, formy=fy, weight=.05))
                    if n == 2:
                        out.append(Job(G.h_set, tx=BASE[t], ty=t, fold=fold, formx=fx, formy=fy, weight=.05))
                out.append(Job(G.h_setzero, t=t, fold=fold, form=fx, weight=.04))
        for fold in (2, 3) if q else (2, 3, 4, 6):
            for I in range(m + 1):
                for form in (None, (2, 3)) if not q else ((None, (2, 3))[I % 2],):
                    s = st(t, I, J=min(m, I + R.randrange(0, 3)))
                    out.append(Job(G.h_negate, t=t, fold=fold, start=s, form=form, weight=.1 * n))
                    if not q or I % 4 == 0 or I == m:
                        out.append(Job(G.h_negate, t=t, fold=fold, start=s, form=form, twice=True, weight=.1 * n))
                        out.append(Job(G.h_cancel, t=t, fold=fold, start=s, form=form, weight=.1 * n))
            for form in (None, (2, 3)):
                out.append(Job(G.h_negate, t=t, fold=fold, start=['zero'] * n, form=form))
                if n == 2:
                    out.append(Job(G.h_negate, t=t, fold=fold, start=['zero', ('at', 3)], form=form))
                    out.append(Job(G.h_negate, t=t, fold=fold, start=[('at', 3), 'zero'], form=form))
    return out


def forms_of(i):
    return (None, (2, 3), (1, 1), (3, 1))[i % 4]


def r12(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        m, n, mx = mi(t), NC[t], FM[t].maxfold
        for fold in (2, 3, 4) if q else (2, 3, 4, 5, 6, 8):
            for I in range(m + 1):
                if q and n == 2 and I % 3 != fold % 3 and I > 4:
                    continue
                s = [('at', I, None, 1)] if n == 1 else [('at', I, None, 1), ('at', min(m, max(0, I + R.randrange(-2, 3))), None, 1)]
                out.append(Job(H.h_out, t=t, fold=fold, start=s, form=forms_of(I + fold), inexact='err', weight=.08 * fold * n))
            for I in (0,):
                for o in (1, -1):
                    out.append(Job(H.h_out, t=t, fold=fold, start=[('at', I, None, 1)] * n, over=o, form=forms_of(fold), inexact='err', validate=1, weight=.1 * n))
        for fold in (6,) if q else (6, 7, 8, 9) if t in 'sc' else (6, 7):
            for I in sorted({0, 1, 3, 4, m // 2, m - fold // 2, m}):
                if q and I not in (0, 3, m // 2) or q and n == 2 or fold == 7 and I > m - fold and t in 'dz':
                    continue
                out.append(Job(H.h_out, t=t, fold=fold, start=[('at', I, None, 1)] * n, form=forms_of(I + fold), inexact='err', rel=9 if fold == 7 else 7, limit=600, weight=2 * n))
        for fold in (1, 2, 3, mx):
            for form in (None, (2, 3)):
                out.append(Job(H.h_empty_out, t=t, fold=fold, form=form))
        if n == 2:
            for I in (0, 3, 4, m):
                out.append(Job(H.h_out, t=t, fold=3, start=[('at', I, None, 1), 'zero'], inexact='err'))
                out.append(Job(H.h_out, t=t, fold=3, start=['zero', ('at', I, None, 1)], form=(2, 3), inexact='err'))
    return out


def r13(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        fm = FM[t]
        m, n, mx = mi(t), NC[t], fm.maxfold
        for fold in (2, 3, 4, mx) if q else (1, 2, 3, 4, 5, 7, mx):
            for J in list(range(m + 1)) + [None]:
                if q and fold == mx and J not in (0, 1, m // 2, m, None):
                    continue
                J2 = R.choice([J, None, R.randrange(m + 1)])
                out.append(Job(H.h_in, t=t, fold=fold, js=pairs(t, J, J2), form=forms_of((J or 0) + fold), weight=.1 * n))
        es = set()
        for J in range(m + 1):
            a, b = fm.lo(J) if J < m else fm.gmin, fm.hi(J)
            es |= {a, b - 1, (a + b) // 2} if q else set(range(a, b))
        for e in sorted(es):
            for fold in ((2, 3)[e % 2], 4) if q else (2, 3, 4):
                if q and fold == 4 and e % 5:
                    continue
                e2 = R.choice(sorted(es) + [None])
                p = pairs(t, e, e2)
                if all(H.window_unit(fm, x, fold) <= x for x in p if x is not None):
                    out.append(Job(H.h_round_trip, t=t, fold=fold, es=p, form=forms_of(e), inexact='err', weight=.15 * n))
                if not q or e % 3 == 0:
                    out.append(Job(H.h_round_trip, t=t, fold=fold, es=p, form=forms_of(e + 1), tail=True, inexact='err', weight=.15 * n))
        out.append(Job(H.h_round_trip, t=t, fold=3, es=(None,) * n, inexact='err'))
    return out


VECS = ('avx', 'sse', 'sisd')


def r10(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        n = NC[t]
        for vec in VECS:
            Ns = list(range(0, 20)) + [31, 33] + ([64, 67] if n == 1 and vec == 'avx' else []) if q else list(range(0, 140)) + [255, 256, 257]
            for N in Ns:
                for inc in (1, R.choice([2, 3])) if N > 1 else (1 + N,):
                    out.append(Job(K.h_amax, vec=vec, t=t, N=N, inc=inc, weight=.01 + .004 * N * n))
                    if N < 72 or not q:
                        out.append(Job(K.h_amaxm, vec=vec, t=t, N=N, incx=inc, incy=R.choice([1, 2]) if inc > 1 else 1, weight=.02 + .006 * N * n * n))
            for N in ((1, 2, 3) if n == 1 else (1,)) if q else (1, 2, 3, 4, 5, 6) if n == 1 else (1, 2, 3):
                out.append(Job(K.h_amax, vec=vec, t=t, N=N, inc=1 + N % 2, wild=True, weight=.5 * N * n * n, limit=300))
                if N <= (2 if q else 3 if n == 1 else 1) and (n == 1 or N == 1):
                    out.append(Job(K.h_amaxm, vec=vec, t=t, N=N, incx=1, incy=1 + N % 2, wild=True, weight=.5 * N * n * n, limit=300))
            for N in (3, 9, 18) if q else range(1, 24):
                for pos in sorted({0, 1, N // 2, N - 1} if q else range(N)):
                    if pos < N:
                        out.append(Job(K.h_amax, vec=vec, t=t, N=N, inc=1 + (N + pos) % 2, infs=((pos, R.randrange(n)),), weight=.05 * n))
                        out.append(Job(K.h_amaxm, vec=vec, t=t, N=N, incx=1 + (N + pos) % 2, incy=1, infs=((pos, R.randrange(n)),), weight=.05 * n))
    return out


def some_class(R, t, kind=None, e=None):
    """a range of largest magnitudes with one scaling factor and one index"""
    fm = FM[t]
    lo, hi = fm.gmin, fm.emax - 1
    k = kind if kind is not None else R.randrange(6)
    if e is None:
        W = fm.W
        e = [R.randrange(lo, hi), R.choice([-1, 0, 1]), W * R.randrange(-(fm.emax // W) + 2, fm.emax // W) + R.choice([-1, 0, 1]), R.randrange(-3 * W, 3 * W), R.choice([lo, lo + 1, lo + R.randrange(2 * W)]), R.choice([hi - 1, hi, hi - R.randrange(W)])][k]
    e = max(lo, min(hi, e))
    cs = Q.classes(fm, e, min(e + R.choice([1, 1, 3]), hi + 1))
    return R.choice(cs)


def ssq_start(R, t, cls):
    """accumulators left by earlier sums of squares"""
    fm = FM[t]
    k = R.randrange(5)
    if k == 0:
        return 'zero', None
    near = cls[2] // fm.W + R.choice([-2, -1, 0, 0, 1, 2, R.randrange(-12, 12)]) if cls else R.randrange(-3, 4)
    top = (fm.emax - 1) // fm.W
    s = fm.W * max(-(-scale_low(fm) // fm.W), min(top, near))
    if k == 1:
        return 'zero', s
    return [('at', cls[3] + R.choice([-1, 0, 1, 2]) if cls else R.choice([8, 9, 20]) if fm.W == 13 else 25)], s


def scale_low(fm):
    return Q.scale_exp(fm, 0)


def fits_window(t, fold, cls, start, s, extra=()):
    """what a rescaling pushes below the last bin stays out of the window"""
    m = FM[t].maxindex
    return cls is None or max([cls[3]] + [c[3] for c in extra]) + fold - 1 < m and (s is None or s <= min([cls[2]] + [c[2] for c in extra]) or max([c[3] + 2 * (s - c[2]) // FM[t].W for c in (cls,) + tuple(extra)]) + fold - 1 < m)


def r06(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        fm, n = FM[t], NC[t]
        end = fm.endurance
        for vec in VECS:
            folds = (2, 3, 4) if q else (2, 3, 4, 5, 6, 8)
            for fold in folds:
                Ns = (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 17, 26) if q else list(range(0, 40)) + [47, 48, 49, 65]
                for N in Ns:
                    for kind in ((R.randrange(6),) if q and vec != 'avx' else (R.randrange(6), R.randrange(6)) if q else range(6)):
                        cls = some_class(R, t, kind) if N else None
                        start, s = ssq_start(R, t, cls)
                        if not fits_window(t, fold, cls, start, s):
                            start, s = 'zero', None
                        out.append(Job(Q.h_ssq, vec=vec, t=t, fold=fold, N=N, inc=R.choice([1, 1, 2, 3]), cls=[cls], start=start, scaleY=s, form=forms_of(N + fold), side=R.randrange(n), weight=(.1 + .02 * N) * n))
                # several blocks, of different magnitudes
                block = end // n if n == 1 else end // 2
                for nb in ((2, 2, 3) if vec == 'avx' else (2,)) if q else (2, 2, 2, 3, 3, 4):
                    W = fm.W
                    e = R.randrange(-fm.emax // 2, fm.emax // 2)
                    cs = [some_class(R, t, 0, e + W * R.choice([0, 1, -1, 2, -2, 3, R.randrange(-4, 5)]) if fold < 7 else e) for _ in range(nb)]
                    if all(c[2] == cs[0][2] for c in cs) and R.random() < .8:
                        cs[-1] = some_class(R, t, 0, e + 2 * W)
                    period = R.choice([1, 2, 3])
                    N = (nb - 1) * block + max(period, R.choice([1, 2, 5]))
                    start, s = ssq_start(R, t, cs[0])
                    if not fits_window(t, fold, cs[0], start, s, cs):
                        start, s = 'zero', None
                    out.append(Job(Q.h_ssq, vec=vec, t=t, fold=fold, N=N, inc=1, cls=cs, block=block, start=start, scaleY=s, form=forms_of(nb), side=R.randrange(n), period=period, weight=1.5 + nb * n))
            if q:
                continue
            for fold in (10, 15, 20) if fm.W == 40 else (9, 10):
                cls = some_class(R, t, 3)
                out.append(Job(Q.h_ssq, vec=vec, t=t, fold=fold, N=5, inc=1, cls=[cls], side=R.randrange(n), weight=1.5 * n))
    return out


def addsq_case(R, t, fold):
    """states and factors of two scaled accumulators whose combination stays within the bins"""
    fm = FM[t]
    m, W = fm.maxindex, fm.W
    top, low = (fm.emax - 1) // W, -(-scale_low(fm) // W)
    ky = R.randrange(low, top + 1)
    d = R.choice([0, 0, 1, 1, 2, 3, R.randrange(0, m // 2), R.randrange(0, top - low)])
    kx = max(low, min(top, ky + d * R.choice([1, -1])))
    jm = m - fold          # accumulators with the larger factor stay clear of the last bin
    J = R.randrange(1, jm)
    I = R.choice([J - 2 * abs(kx - ky) + R.randrange(-fold, fold + 1), R.randrange(1, jm)])
    I = max(1, min(jm, I))
    big, small = [('at', J)], [('at', I)]
    k = R.random()
    if k < .1:
        small = ['zero']
    elif k < .2:
        big = ['zero']
        if I + 2 * abs(kx - ky) + fold - 1 > m or 2 * abs(kx - ky) * W >= fm.emax:
            kx = ky
    elif k < .3:
        small = [('special', R.choice(specials(t)), I)]
    elif k < .35:
        big = [('special', R.choice(specials(t)), J)]
    elif k < .4:
        big = small = ['zero']
    d = 2 * abs(kx - ky)
    if small[0][0] == big[0][0] == 'at' and (d * W >= fm.emax or I + d + fold - 1 > m) and min(J, I + d) + fold - 1 >= (I + d if d * W >= fm.emax else m + 1):
        return None
    if big == ['zero'] and d * W >= fm.emax:
        return None
    a, b = (big, small) if kx > ky else (small, big)
    x, y = (kx * W, ky * W)
    if k > .95:
        x = None
        a = ['zero']
    elif k > .9:
        y = None
        b = ['zero']
    return a, x, b, y


def r07(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        fm, n = FM[t], NC[t]
        m, W = fm.maxindex, fm.W
        top, low = (fm.emax - 1) // W, -(-scale_low(fm) // W)
        for fold in (2, 3, 4, 6) if q else (2, 3, 4, 5, 6, 7, 8, 10):
            for rep in range(30 if q else 150):
                sy = R.randrange(low, top + 1)
                d = R.choice([0, 1, 1, 2, 3, -1, -2, R.randrange(0, m // 2)])
                sx = max(low, min(top, sy + d))
                while 2 * W * abs(sx - sy) >= fm.emax:
                    sx += 1 if sx < sy else -1
                st_ = []
                for c in range(n):
                    a, b = (1, m - fold + 1 - 2 * (sx - sy)) if sx >= sy else (1 - 2 * (sx - sy), m - fold + 1)
                    k = R.random()
                    st_.append('zero' if k < .15 or a > b else ('special', R.choice(specials(t)), R.randrange(1, m)) if k < .25 else ('at', R.choice([a, b, R.randrange(a, b + 1)])))
                out.append(Job(Q.h_rescale, t=t, fold=fold, start=st_, sx=sx * W if rep else None, sy=sy * W if rep != 1 else None, form=forms_of(1 + rep % 3) or (1, 1), weight=.05 * n))
            if n == 2:
                continue
            for rep in range(60 if q else 300):
                c = addsq_case(R, t, fold)
                if c is None:
                    continue
                a, x, b, y = c
                out.append(Job(Q.h_addsq, t=t, fold=fold, sx=a, kx=x, sy=b, ky=y, form=forms_of(rep), weight=.06))
    return out


TOKENS = ('inf', '-inf', 'nan', '-nan')


def r11(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    # additions and merges
    for t in TYPES:
        m, n = mi(t), NC[t]

        def state(p):
            k = R.random()
            return ('special', R.choice(specials(t)), R.randrange(m)) if k < p else 'zero' if k < p + .15 else ('at', R.randrange(m + 1))
        for fold in (2, 3, 5) if q else (2, 3, 4, 5, 6, 8, 11):
            for rep in range(14 if q else 80):
                steps = []
                for _ in range(R.choice([1, 2, 3, 4])):
                    if R.random() < .25:
                        steps.append(('merge', [state(.5) for _ in range(n)]))
                    else:
                        steps.append(('add', tuple(R.choice(TOKENS) if R.random() < .4 else R.choice(['zero', '-zero', 'one', 'top', '-top']) if R.random() < .1 else R.randrange(m) for _ in range(n))))
                R.shuffle(steps)
                out.append(Job(M.h_steps, t=t, fold=fold, start=[state(.3) for _ in range(n)], steps=steps, form=forms_of(rep + fold), weight=.06 * n))
    # the vector kernels
    sets = [('inf',), ('-inf',), ('nan',), ('inf', '-inf'), ('inf', 'inf'), ('-inf', '-inf'), ('inf', 'nan'), ('top', 'top', '-inf'), ('-top', 'inf', '-top'), ('-inf', 'nan', 'inf'), ('top', 'top', 'inf', '-inf')]
    for t in TYPES:
        m, n = mi(t), NC[t]
        end = 2048 if FM[t].w == 64 else 512
        for vec in VECS:
            for op in ('sum', 'asum'):
                for i in range(14 if q else 90):
                    N = R.choice([1, 2, 3, 5, 8, 9, 17, 33 if n == 1 else 13])
                    S = [()] if i == 0 else [R.choice(sets) for _ in range(n)]
                    if len(S) == 2 and R.random() < .6:
                        S[R.randrange(2)] = ()
                    sp = [(p, c, k) for c in range(len(S)) for p, k in zip(R.sample(range(N), min(N, len(S[c]))), S[c]) if not k.endswith('top') or len(S[c]) <= N]
                    J = R.choice([0, 1, 4, R.randrange(m)])
                    s = [('special', R.choice(specials(t)), R.randrange(m)) if R.random() < (.2 if i else 1) else 'zero' if R.random() < .2 else ('at', R.randrange(m + 1)) for _ in range(1 if op == 'asum' else n)]
                    out.append(Job(M.h_vec, vec=vec, t=t, op=op, fold=2 + i % 3, N=N, inc=R.choice([1, 1, 2]), J=J, special=sp, start=s, form=forms_of(i), weight=.1 * n))
                # the special element in one of several blocks
                for N in ((end + 1,) if vec == 'avx' else (end // 2 + 1,)) if q else (end // 4 + 1, end // 2 + 1, end + 1, 2 * end + 1):
                    for pos in sorted({0, N // 2, N - 1} if q else {0, 1, N // 4, N // 2, 3 * N // 4, N - 2, N - 1}):
                        c = R.randrange(n)
                        sp = [(pos, c, R.choice(TOKENS))] + ([((pos + N // 2) % N, c, R.choice(TOKENS))] if R.random() < .5 else [])
                        out.append(Job(M.h_vec, vec=vec, t=t, op=op, fold=2, N=N, inc=1, J=3, special=sp, start=[('at', 3)] * (1 if op == 'asum' else n), period=1, weight=1 + .001 * N * n))
        pt = [(('inf',), ('one',)), (('inf',), ('-one',)), (('zero',), ('-inf',)), (('big',), ('big',)), (('-big',), ('big',)), (('nan',), ('zero',)), (('-inf',), ('-inf',)), (('top',), ('top',)), (('one',), ('nan',))]
        for op in ('dot',) if n == 1 else ('dotu', 'dotc'):
            for vec in VECS:
                for i in range(14 if q else 90):
                    N = R.choice([1, 2, 3, 5, 9, 17])
                    sp = {}
                    for p in R.sample(range(N), min(N, R.choice([1, 1, 2, 3]))):
                        if n == 1:
                            sp[p] = R.choice(pt)
                        else:
                            a, b = R.choice(pt), R.choice([(('one',), ('zero',)), (('zero',), ('zero',)), (('one',), ('-one',)), R.choice(pt)])
                            sp[p] = ((a[0][0], b[0][0])[::R.choice([1, -1])], (a[1][0], b[1][0])[::R.choice([1, -1])])
                    J = R.choice([1, 4, R.randrange(1, m // 2)])
                    s = [('special', R.choice(specials(t)), R.randrange(m)) if R.random() < .2 else 'zero' if R.random() < .2 else ('at', R.randrange(m + 1)) for _ in range(n)]
                    out.append(Job(M.h_vdot, vec=vec, t=t, op=op, fold=2 + i % 3, N=N, incx=R.choice([1, 1, 2]), incy=R.choice([1, 1, 3]), J=J, special=sp, start=s, form=forms_of(i), weight=.2 * n))
    # sums of squares
    for t in TYPES:
        n, fm = NC[t], FM[t]
        for vec in VECS:
            for i in range(24 if q else 120):
                N = R.choice([1, 2, 3, 5, 9, 17])
                cls = some_class(R, t, R.choice([0, 1, 2, 3, 4]))
                start, s = ssq_start(R, t, cls)
                if not fits_window(t, 2 + i % 3, cls, start, s):
                    start, s = 'zero', None
                if i % 4 == 0:
                    start = [('special', R.choice([x for x in specials(t) if x >> (fm.w - 1) == 0]), 9)]
                tk = [(p, R.randrange(n), R.choice(TOKENS)) for p in R.sample(range(N), min(N, R.choice([1, 1, 2, 3])))]
                if i % 8 == 0:
                    tk = []
                out.append(Job(Q.h_vssq, vec=vec, t=t, fold=2 + i % 3, N=N, inc=R.choice([1, 1, 2]), cls=cls, tokens=tk, start=start, scaleY=s, form=forms_of(i), weight=.1 * n))
            for N in (fm.endurance + 1,) if q else (fm.endurance // 2 + 1, fm.endurance + 1, 2 * fm.endurance + 1):
                for pos in (0, N - 1):
                    cls = some_class(R, t, 3)
                    out.append(Job(Q.h_vssq, vec=vec, t=t, fold=2, N=N, inc=1, cls=cls, tokens=[(pos, R.randrange(n), R.choice(TOKENS))] + ([(N // 2, R.randrange(n), R.choice(TOKENS))] if R.random() < .5 else []), period=1, weight=1 + .001 * N * n))
    return out


ALPHAS = (1, 3, (2, 1000), -1, (Fraction(1, 1000), Fraction(1, 3)), 0)
SMALL = {}
for p in ('dbd', 'zbz', 'sbs', 'cbc'):
    for op in ('gemv', 'gemm'):
        for v, n in (('Y_BLOCK', 2), ('XY_BLOCK', 4), ('YT_BLOCK', 2), ('XYT_BLOCK', 4)) + ((('T_BLOCK', 1),) if op == 'gemv' else ()):
            SMALL['%s%s_block_size_%s' % (p, op, v)] = n


def factor(R, t, some=ALPHAS):
    """one real factor or the two parts of a complex one"""
    a = R.choice(some)
    if NC[t] == 1:
        return a
    b = R.choice([0, 0, 1, 3, (2, 1000), -1])
    return [a, b]


def matrix_starts(R, t, fold, J, n):
    """starting contents of n elements for products of index J"""
    k = R.randrange(3)
    if k == 0:
        return 'zero'
    if k == 1:
        return ('at', J)
    return ('at', max(0, min(mi(t), J + R.randrange(-fold + 1, fold + 1))))


def some_index(R, t):
    m = mi(t)
    return R.choice([0, 1, 3, m // 2, m - 3, R.randrange(1, m - 2)])


def r08(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    shapes = [(0, 2), (2, 0), (1, 1), (2, 3), (3, 2), (1, 5), (5, 1)]
    for t in TYPES:
        m = mi(t)
        for order in 'rRcC':
            for trans in 'nNtTcC':
                for M, N in shapes if q else shapes + [(4, 4), (9, 2), (2, 9), (10, 3), (3, 17), (17, 3), (6, 7)]:
                    for rep in range(1 if q else 3):
                        if q and order + trans not in ('rn', 'cn', 'rt', 'ct', 'rc', 'cc') and R.random() < .6:
                            continue
                        fold = R.choice([2, 3, 4] if q else [2, 3, 4, 5, 8])
                        J = some_index(R, t)
                        ld = (N if order in 'rR' else M) + R.choice([0, 0, 1, 3])
                        out.append(Job(U.h_gemv, t=t, fold=fold, order=order, trans=trans, M=M, N=N, lda=max(ld, 1), incX=R.choice([1, 1, 2]), incY=R.choice([1, 1, 2, 3]), J=J,
                                       alpha=factor(R, t), start=matrix_starts(R, t, fold, J, 0), weight=.04 + .03 * M * N * NC[t]))
        # boundaries of the blocks
        for order in 'rc':
            for trans in 'ntc' if NC[t] == 2 else 'nt':
                for M, N in ((3, 5), (5, 3)) if q else [(a, b) for a in range(1, 7) for b in range(1, 7)]:
                    J = some_index(R, t)
                    out.append(Job(U.h_gemv, tuning=SMALL, t=t, fold=R.choice([2, 3]), order=order, trans=trans, M=M, N=N, lda=(N if order == 'r' else M) + R.choice([0, 1]), incX=R.choice([1, 2]),
                                   incY=R.choice([1, 2]), J=J, alpha=factor(R, t, ALPHAS[:3]), start=R.choice(['zero', ('at', J)]), each=True, weight=.04 + .03 * M * N * NC[t]))
                long = [(2, 300), (300, 2)] if q else [(9, 300), (300, 9), (2, 1100), (1100, 2), (1, 4099), (4099, 1), (1, 8200), (129, 3), (3, 130), (33, 2), (257, 257)]
                for M, N in long:
                    J = some_index(R, t)
                    if q and (N if trans == 'n' else M) < 3:
                        continue
                    out.append(Job(U.h_gemv, t=t, fold=2, order=order, trans=trans, M=M, N=N, lda=(N if order == 'r' else M) + R.choice([0, 1]), incX=R.choice([1, 2]),
                                   incY=1, J=J, alpha=factor(R, t, ALPHAS[:3]), start=('at', J), period=1 if q else R.choice([1, 2]), weight=1 + .002 * M * N))
    return out


def r09(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    shapes = [(0, 2, 2), (2, 0, 1), (1, 2, 0), (1, 1, 1), (2, 3, 4), (3, 2, 2), (2, 1, 3)]
    for t in TYPES:
        for order in 'rRcC':
            for ta in 'nNtTcC':
                for tb in 'nNtTcC':
                    main = order + ta + tb == (order + ta + tb).lower()
                    if q and not main and R.random() < .75:
                        continue
                    for M, N, K in R.sample(shapes, 2) + [(2, 3, 4)] if q else shapes + [(3, 4, 5), (5, 3, 2), (4, 6, 3)]:
                        fold = R.choice([2, 3] if q else [2, 3, 4, 5, 8])
                        J = some_index(R, t)
                        row = order in 'rR'
                        la = (K if (ta in 'nN') == row else M) + R.choice([0, 0, 1, 2])
                        lb = (N if (tb in 'nN') == row else K) + R.choice([0, 0, 1, 2])
                        lc = (N if row else M) + R.choice([0, 0, 1, 2])
                        out.append(Job(U.h_gemm, t=t, fold=fold, order=order, ta=ta, tb=tb, M=M, N=N, K=K, lda=max(1, la), ldb=max(1, lb), ldc=max(1, lc), J=J,
                                       alpha=factor(R, t), start=matrix_starts(R, t, fold, J, 0), weight=.04 + .02 * M * N * K * NC[t]))
        for order in 'rc':
            for ta in 'ntc' if NC[t] == 2 else 'nt':
                for tb in 'ntc' if NC[t] == 2 else 'nt':
                    for M, N, K in ((3, 3, 3),) if q else ((3, 3, 3), (1, 5, 4), (5, 1, 5), (2, 2, 7), (4, 3, 2), (1, 1, 1)):
                        for al in ([1, R.choice([3, (2, 1000)])] if NC[t] == 1 else [[1, 0], [3, (2, 1000)]]):
                            J = some_index(R, t)
                            row = order == 'r'
                            la = K if (ta == 'n') == row else M
                            lb = N if (tb == 'n') == row else K
                            out.append(Job(U.h_gemm, tuning=SMALL, t=t, fold=2, order=order, ta=ta, tb=tb, M=M, N=N, K=K, lda=la + R.choice([0, 1]), ldb=lb + R.choice([0, 1]), ldc=(N if row else M) + R.choice([0, 1]),
                                           J=J, alpha=al, start=R.choice(['zero', ('at', J)]), each=True, weight=.04 + .02 * M * N * K * NC[t]))
                    if q:
                        continue
                    for M, N, K in ((34, 1, 2), (1, 34, 2), (2, 1, 1030), (1, 2, 1030), (33, 33, 1), (1, 1, 2060)):
                        J = some_index(R, t)
                        row = order == 'r'
                        la = K if (ta == 'n') == row else M
                        lb = N if (tb == 'n') == row else K
                        out.append(Job(U.h_gemm, t=t, fold=2, order=order, ta=ta, tb=tb, M=M, N=N, K=K, lda=la, ldb=lb + 1, ldc=N if row else M, J=J, alpha=factor(R, t, ALPHAS[:3]), start=('at', J),
                                       period=R.choice([1, 2]), weight=1 + .004 * M * N * K))
    return out


def r20(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        m = mi(t)
        for op in ('sum', 'asum', 'dot', 'nrm2') if NC[t] == 1 else ('sum', 'asum', 'dotu', 'dotc', 'nrm2'):
            if op == 'nrm2':
                for fold in (None, 2, 3, 5) if q else (None, 2, 3, 4, 5, 6, 8):
                    for N in (0, 1, 2, 5, 9) if q else list(range(0, 20)) + [33, 65]:
                        out.append(Job(Q.h_nrm2, t=t, fold=fold, N=N, inc=R.choice([1, 2]), cls=some_class(R, t) if N else None, side=R.randrange(NC[t]), stubs='wrap', weight=.15))
                continue
            for fold in (None, 2, 3, 5) if q else (None, 2, 3, 4, 5, 6, 8, 11):
                for N in (0, 1, 2, 5, 9) if q else list(range(0, 20)) + [33, 65]:
                    J = R.choice([0, 1, 4, 9, m - 1, R.randrange(m)])
                    J2 = J if op == 'asum' else R.choice([0, 3, m - 2])
                    out.append(Job(K.h_wrapper, t=t, op=op, N=N, incx=R.choice([1, 2]), incy=R.choice([1, 3]), Js=pairs(t, J, J2), fold=fold, stubs='wrap', weight=.15))
        betas = (0, 1, -1, 3, (2, 1000))
        for order in 'rRcC' if not q else 'rc':
            for rep in range(6 if q else 40):
                trans, tb = R.choice('ntc'), R.choice('ntc')
                row = order in 'rR'
                M, N, KK = R.choice([(2, 3, 2), (3, 1, 2), (1, 2, 3), (1, 1, 1), (0, 2, 1), (2, 0, 1), (2, 2, 0)])
                fold = R.choice([None, 2, 3, 4])
                def beta():
                    b = betas[rep % 5]
                    return b if NC[t] == 1 else [b, R.choice([0, 0, 1, (2, 1000)])]
                J = some_index(R, t)
                Jy = max(1, min(m - 2, J + R.randrange(-2, 3)))
                out.append(Job(U.h_rgemv, t=t, fold=fold, order=order, trans=trans, M=M, N=N, lda=max(1, N if row else M) + R.choice([0, 1]), incX=R.choice([1, 2]), incY=R.choice([1, 2, 3]), J=J, Jy=Jy,
                               alpha=factor(R, t), beta=beta(), stubs='wrap', weight=.2 * NC[t]))
                la = KK if (trans == 'n') == row else M
                lb = N if (tb == 'n') == row else KK
                out.append(Job(U.h_rgemm, t=t, fold=fold, order=order, ta=trans, tb=tb, M=M, N=N, K=KK, lda=max(1, la) + R.choice([0, 1]), ldb=max(1, lb) + R.choice([0, 1]), ldc=max(1, N if row else M) + R.choice([0, 1]),
                               J=J, Jy=Jy, alpha=factor(R, t), beta=beta(), stubs='wrap', weight=.2 * NC[t]))
    return out


def r22(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in 'ds':
        m, mx = mi(t), FM[t].maxfold
        for fold in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6):
            near = sorted({0, 1, 2, 3, 4, m - fold - 1, m - fold, m - fold + 1, m - fold + 2, m - 1, m} & set(range(m + 1)))
            for J in near + R.sample([j for j in range(m + 1) if j not in near], 2) if q else range(m + 1):
                for N in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                    if N == 3 and fold > 3 and q:
                        continue
                    for op in ('sum', 'asum'):
                        out.append(Job(P.h_bound, vec=R.choice(VECS), t=t, fold=fold, N=N, J=J, pos=R.randrange(N), op=op, neg=R.random() < .5, inexact='err', weight=.03 * fold * fold, limit=300))
            for N in (7, 64, 1000, 3000):
                J = R.randrange(2, m - 1)
                out.append(Job(P.h_bound, vec=R.choice(VECS), t=t, fold=fold, N=N, J=J, pos=0, period=R.choice([1, 2]), op=R.choice(['sum', 'asum']), neg=R.random() < .5, inexact='err', weight=.3 * fold, limit=300))
        lo, hi = FM[t].gmin, FM[t].emax - 2
        for fold in (1, 2, 3, 4, 5, mx // 2, mx):
            for N in (0, 1, 3, 1000, 2**31 - 1):
                for ex, es in ((0, 0), (None, 3), (10, None), (None, None), (R.randrange(-90, 20), R.randrange(-90, 50)), (R.randrange(lo + 60, 20), R.randrange(lo + 60, 20)), (lo + 1, lo + 5), (hi - 40, hi - 30)):
                    out.append(Job(P.h_bound_value, t=t, fold=fold, N=N, ex=ex, es=es, nx=R.random() < .5, ns=R.random() < .5, inexact='err', weight=.03))
    return out


def r23(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        m, n = mi(t), NC[t]
        for fold in (2, 3, 4) if q else (1, 2, 3, 4, 5, 7, FM[t].maxfold):
            for N in (0, 1, 2, 3, 6) if q else range(0, 12):
                for incx, incy in ((1, 1), (2, 1), (1, 3), (3, 2)):
                    def some():
                        k = R.randrange(6)
                        return 'zero' if k == 0 else ('at', R.choice([0, 1, m, R.randrange(m + 1)]))
                    sx = [some() for _ in range(N * n)]
                    sy = [some() if s == 'zero' or R.random() < .4 else ('at', max(0, min(m, s[1] + R.randrange(-fold, fold + 1)))) for s in sx]
                    out.append(Job(K.h_baddv, t=t, fold=fold, N=N, incx=incx, incy=incy, sx=sx, sy=sy, weight=.03 * (N + 1) * n))
    return out


def r19(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in TYPES:
        fm, n = FM[t], NC[t]
        m = fm.maxindex
        for fold in range(2, m + 1):
            for rep in range(1 if q and fold > 5 else 3 if q else 8):
                N = R.choice((1, 2, 3, 5)) if fold < 10 else R.choice((1, 2))
                if rep == 1:
                    N = R.choice((0, 3, 4))

                def some():
                    k = R.randrange(6)
                    return 'zero' if k == 0 else ('at', R.choice([0, 1, m, R.randrange(m + 1)]))
                sx = [some() for _ in range(N * n)]
                sy = [some() if s == 'zero' or R.random() < .4 else ('at', max(0, min(m, s[1] + R.randrange(-fold, fold + 1)))) for s in sx]
                out.append(Job(V.h_reduce, mpi=True, t=t, fold=fold, N=N, sx=sx, sy=sy, weight=.03 * (N + 1) * n * max(1, fold / 6)))
    for t in 'ds':
        for fold in range(2, FM[t].maxindex + 1):
            rep = 0
            tries = 0
            while rep < (2 if q and fold > 4 else 6 if q else 12) and tries < 500:
                tries += 1
                N = R.choice((1, 2, 3)) if fold < 8 else 1
                if FM[t].maxindex - fold < 2:
                    cs = [R.choice([(['zero'], None, ['zero'], 0), (['zero'], 0, ['zero'], FM[t].W), (['zero'], None, [('at', 1)], 0), ([('at', 1)], 0, ['zero'], None), ([('at', 1)], 0, [('at', 1)], 0)]) for _ in range(N)]
                else:
                    cs = [addsq_case(R, t, fold) for _ in range(N)]
                if None in cs:
                    continue
                rep += 1
                out.append(Job(V.h_reducesq, mpi=True, t=t, fold=fold, N=N, sx=[c[0][0] for c in cs], kx=[c[1] for c in cs], sy=[c[2][0] for c in cs], ky=[c[3] for c in cs], weight=.06 * N * max(1, fold / 6)))
    return out


def tunings(kind, seed):
    """arguments for the code generator within the ranges it accepts: the smallest, the largest, or drawn"""
    with open(os.path.join(REPO, 'src', 'params.json')) as f:
        P = json.load(f)['parameters']
    R = random.Random('%s %s' % (kind, seed))
    out = {}
    for k in sorted(P):
        v = P[k]
        if v['flavor'] == 'boolean':
            out[k] = kind == 'largest' if kind != 'drawn' else R.random() < .5
            continue
        lo, hi = v['minimum'], v['maximum']
        x = lo if kind == 'smallest' else hi
        if kind == 'drawn':
            if v['flavor'] == 'integer':
                x = R.randrange(lo, hi + 1, v.get('step', 1))
            else:
                x = 1 << R.randrange(lo.bit_length() - 1, hi.bit_length())
        if 'max_' in k:             # keeps the code small and the vectors that reach every loop short
            x = min(x, 2 * lo if 'pipe' in k else 4 * lo)
        out[k] = x
    return out


def lengths(R, tun, vec, op, t, fold, count):
    """vector lengths around the steps of the kernel's loops"""
    V = dict(avx='AVX', sse='SSE', sisd='SISD')[vec]
    pre = {'sum': '%sdepositSum', 'asum': '%sdepositASum', 'ssq': '%sdepositSSq', 'dot': '%sdepositDot', 'dotu': '%sdepositDotU', 'dotc': '%sdepositDotC', 'amax': '%samax', 'amaxm': '%samaxm'}[op]
    name = {'z': 'dz', 'c': 'sc'}.get(t, t) if op in ('asum', 'ssq') else t
    pre = pre % name
    F_ = fold if fold in (2, 3, 4) else 0
    u = tun.get('%s_max_unroll_width_%s_fold_%d' % (pre, V, F_), tun.get('%s_max_unroll_width_%s' % (pre, V), 4))
    p = tun.get('%s_max_pipe_width_%s_fold_%d' % (pre, V, F_), 1)
    steps = sorted({1, p, u, u * p, 2 * u * p})
    c = {0, 1, 2, 3, p - 1, p + 1, u * p, u * p - 1, u * p + 1, u * p + p + 1, 2 * u * p - 1, 2 * u * p + 3}
    c = sorted(n for n in c if 0 <= n < 600)
    big = [n for n in c if n >= u * p]
    out = R.sample(c, min(count, len(c)))
    if big and not any(n in big for n in out):
        out[0] = R.choice(big)
    return out


def block_name(t, op):
    n = 'm'.join({'z': 'dz', 'c': 'sc'}[t]) if op in ('asum', 'ssq') and NC[t] == 2 else t + 'm' + t
    return n + op


def all_in_each(N, block, period):
    """a length of at least N such that each block holds every value"""
    if N <= block or period == N:
        return min(N, block)
    while 0 < N % block < period:
        N += 1
    return N


def r21(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    trees = [None, tunings('smallest', 0), tunings('drawn', seed)] + ([] if q else [tunings('largest', 0)] + [tunings('drawn', seed + 1000 + i) for i in range(8)])
    for k, tun in enumerate(trees):
        if tun is None:
            with open(os.path.join(REPO, 'src', 'tuned_args.json')) as f:
                args = json.load(f)
        else:
            args = tun
        for vec in VECS:
            ops = [(F.h_sum, t, o) for t in TYPES for o in ('sum', 'asum')] + DOTS
            for h, t, op in ops:
                m, n = mi(t), NC[t]
                for fold in (2, 3, 4, 5):
                    for N in lengths(R, args, vec, op, t, fold, 2 if q else 6):
                        J = R.choice([0, m - fold, R.randrange(m - 1)])
                        J2 = max(0, min(m, J + R.randrange(-1, 2)))
                        period = None if N < 25 else R.choice([1, 2, 3])
                        N = all_in_each(N, args[block_name(t, op) + '_block_size_N_block_MAX'], period or N)
                        inc = R.choice([1, 1, 2])
                        st = [('at', max(0, min(m, J + R.randrange(-1, 2)))) for _ in range(1 if op == 'asum' else n)]
                        kw = dict(inc=inc) if h is F.h_sum else dict(incx=inc, incy=R.choice([1, 2]) if inc > 1 else 1)
                        out.append(Job(h, vec=vec, tuning=tun, t=t, op=op, fold=fold, N=N, Js=pairs(t, J, J2), start=R.choice(['zero', st]), period=period, weight=.1 + .004 * N * n, **kw))
                # the blocks of the vector
                blk = args.get(block_name(t, op) + '_block_size_N_block_MAX')
                if blk:
                    for N in (blk, blk + 1, 2 * blk + 3)[:2 if blk > 600 and q else 3]:
                        if q and vec != 'avx' and blk > 300:
                            continue
                        J = R.randrange(m - 1)
                        st = [('at', max(0, min(m, J + R.randrange(0, 2)))) for _ in range(1 if op == 'asum' else n)]
                        kw = dict(inc=1) if h is F.h_sum else dict(incx=1, incy=1)
                        period = R.choice([1, 2])
                        out.append(Job(h, vec=vec, tuning=tun, t=t, op=op, fold=R.choice([2, 3, 4, 5]) if blk < 600 else 2, N=all_in_each(N, blk, period), Js=pairs(t, J, J), start=st, period=period, weight=1 + .001 * N * n, **kw))
            for t in TYPES:
                fm, n = FM[t], NC[t]
                for fold in (2, 3, 4, 5):
                    for N in lengths(R, args, vec, 'ssq', t, fold, 2 if q else 6):
                        cls = some_class(R, t) if N else None
                        out.append(Job(Q.h_ssq, vec=vec, tuning=tun, t=t, fold=fold, N=N, inc=R.choice([1, 2]), cls=[cls], side=R.randrange(n), period=None if N < 25 else R.choice([1, 2]), weight=(.1 + .02 * min(N, 60)) * n))
                cls = some_class(R, t)
                blk = args.get(block_name(t, 'ssq') + '_block_size_N_block_MAX')
                if blk and (blk < 300 or not q or vec == 'avx'):
                    out.append(Job(Q.h_ssq, vec=vec, tuning=tun, t=t, fold=R.choice([2, 3]), N=blk + 3, inc=1, cls=[cls], side=R.randrange(n), period=R.choice([1, 2]), weight=1.5 * n))
                for N in lengths(R, args, vec, 'amax', t, 0, 4 if q else 10):
                    if N < (150 if q else 600):
                        out.append(Job(K.h_amax, vec=vec, tuning=tun, t=t, N=N, inc=R.choice([1, 2]), weight=.01 + .004 * N * n))
                for N in lengths(R, args, vec, 'amaxm', t, 0, 4 if q else 10):
                    if N < (70 if q else 150):
                        out.append(Job(K.h_amaxm, vec=vec, tuning=tun, t=t, N=N, incx=R.choice([1, 2]), incy=1, weight=.02 + .006 * N * n * n))
        for t in TYPES:
            for order in 'rc':
                for trans in 'ntc' if NC[t] == 2 else 'nt':
                    for M, N in ((2, 3), (5, 4), (3, 9)) if q else ((2, 3), (5, 4), (3, 9), (9, 3), (7, 7), (1, 17)):
                        J = some_index(R, t)
                        out.append(Job(U.h_gemv, tuning=tun, t=t, fold=R.choice([2, 3]), order=order, trans=trans, M=M, N=N, lda=(N if order == 'r' else M) + R.choice([0, 1]), incX=R.choice([1, 2]),
                                       incY=R.choice([1, 2]), J=J, alpha=factor(R, t, ALPHAS[:3]), start=R.choice(['zero', ('at', J)]), each=tun is not None, weight=.04 + .03 * M * N * NC[t]))
                for ta in 'nt':
                    for tb in 'nt':
                        M, N, K_ = R.choice([(2, 3, 2), (3, 1, 4), (1, 3, 3), (3, 2, 2)])
                        row = order == 'r'
                        la = (K_ if ta == 'n' else M) if row else (M if ta == 'n' else K_)
                        lb = (N if tb == 'n' else K_) if row else (K_ if tb == 'n' else N)
                        J = some_index(R, t)
                        out.append(Job(U.h_gemm, tuning=tun, t=t, fold=2, order=order, ta=ta, tb=tb, M=M, N=N, K=K_, lda=la, ldb=lb, ldc=N if row else M, J=J,
                                       alpha=factor(R, t, ALPHAS[:3]), start=R.choice(['zero', ('at', J)]), each=tun is not None, weight=.04 + .03 * M * N * K_ * NC[t]))
    return out


OPS = ('add', 'update', 'conv', 'deposit', 'merge', 'set', 'renorm', 'negate', 'setzero', 'out', 'rset', 'rupdate')


def r24(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    for t in 'zc':
        m = mi(t)
        for fold in (2, 3, 5) if q else (2, 3, 4, 5, 6, 9):
            for op in OPS:
                for rep in range(4 if q else 24):
                    I, J = R.randrange(m + 1), R.randrange(m + 1)
                    js = (max(0, I - R.randrange(0, 3)), max(0, J - R.randrange(0, 3)))
                    s = [('at', I), ('at', J)]
                    if op == 'renorm':
                        s = [('wide', I, [R.randrange(fold)]), ('wide', J, [R.randrange(fold)])]
                    elif rep == 1 and op != 'deposit':
                        s = ['zero', ('at', J)]
                    elif rep == 2 and op != 'deposit':
                        s = [('at', I), 'zero']
                    elif rep == 3 and op not in ('setzero', 'conv', 'update', 'rupdate'):
                        s = [('special', R.choice(specials(t))), ('at', J)][::R.choice([1, -1])]
                    if op == 'deposit':
                        js = (I, J)
                    o = [('at', R.randrange(m + 1)), R.choice(['zero', ('at', R.randrange(m + 1))])][::R.choice([1, -1])]
                    if op == 'deposit' and 'special' in (s[0][0], s[1][0]):
                        continue
                    out.append(Job(K.h_parts, t=t, op=op, fold=fold, start=s, form=forms_of(rep + fold), js=js, other=o, weight=.1))
    for ops in ([(F.h_sum, 'z', 'sum'), (F.h_sum, 'c', 'sum'), (F.h_dot, 'z', 'dotu'), (F.h_dot, 'c', 'dotc'), (F.h_dot, 'z', 'dotc'), (F.h_dot, 'c', 'dotu')],):
        for h, t, op in ops:
            m = mi(t)
            for vec in VECS:
                for N in (1, 2, 5, 6):
                    J, J2 = R.randrange(m + 1), R.randrange(m + 1)
                    kw = dict(inc=1 + N % 2) if h is F.h_sum else dict(incx=1, incy=1 + N % 2)
                    out.append(Job(h, vec=vec, t=t, op=op, fold=2 + N % 3, N=N, Js=(J, J2), start=[('at', R.randrange(m + 1)), R.choice(['zero', ('at', R.randrange(m + 1))])][::R.choice([1, -1])], form=forms_of(N), weight=.3, **kw))
    return out


def r25(tier, seed):
    q = tier == 'quick'
    R = random.Random(seed)
    out = []
    forms = [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (5, 4)]
    for t in TYPES:
        m, n = mi(t), NC[t]
        for fold in (2, 3, 5) if q else (2, 3, 4, 5, 6, 9):
            for op in OPS:
                if op in ('rset', 'rupdate') and n == 1:
                    continue
                for rep, form in enumerate(forms if not q else R.sample(forms, 3)):
                    I, J = R.choice([0, m, R.randrange(m + 1)]), R.randrange(m + 1)
                    s = [('at', I), ('at', J)][:n]
                    if op == 'renorm':
                        s = [('wide', I, [R.randrange(fold)]), ('wide', J, [R.randrange(fold)])][:n]
                    js = (max(0, I - R.randrange(0, 3)), max(0, J - R.randrange(0, 3))) if op != 'deposit' else (I, J)
                    out.append(Job(K.h_layout, t=t, op=op, fold=fold, start=s, form=form, form2=R.choice(forms), js=js[:n], other=[('at', R.randrange(m + 1)), ('at', R.randrange(m + 1))][:n], weight=.1))
    for h, t, op in [(F.h_sum, t, o) for t in TYPES for o in ('sum', 'asum')] + [(F.h_dot, 'd', 'dot'), (F.h_dot, 's', 'dot'), (F.h_dot, 'z', 'dotu'), (F.h_dot, 'c', 'dotc'), (F.h_dot, 'z', 'dotc'), (F.h_dot, 'c', 'dotu')]:
        m = mi(t)
        for vec in VECS:
            for form in forms[1:]:
                N = R.choice([1, 3, 4, 6, 9])
                J, J2 = R.randrange(m + 1), R.randrange(m + 1)
                kw = dict(inc=R.choice([1, 2])) if h is F.h_sum else dict(incx=1, incy=R.choice([1, 2]))
                out.append(Job(h, vec=vec, t=t, op=op, fold=R.choice([2, 3, 4, 5, 7]), N=N, Js=pairs(t, J, J2), start=[('at', R.randrange(m + 1)) for _ in range(1 if op == 'asum' else NC[t])], form=form, weight=.3, **kw))
    return out


TECHNIQUE = {}
NOTE = {}
NA = {}
TABLE = dict(R01=r01, R02=r02, R03=r03, R04=r04, R05=r05, R06=r06, R07=r07, R08=r08, R09=r09, R10=r10, R11=r11, R12=r12, R13=r13, R14=r14, R15=r15, R16=r16, R17=r17, R19=r19, R20=r20, R21=r21, R22=r22, R23=r23, R24=r24, R25=r25)


def tasks(prop, tier, seed):
    jobs = TABLE[prop](tier, seed)
    plain = [j for j in jobs if isinstance(j, Job)]
    other = [j for j in jobs if not isinstance(j, Job)]
    small = [j for j in plain if j.weight < 2]
    big = [j for j in plain if j.weight >= 2]
    if tier != 'quick' and prop not in ('R01', 'R16', 'R17', 'R19'):
        other = other + [l for l in all_lemmas() if not any(l.name() == o.name() for o in other)]
    return other + big + bundle(small, total=1.0 if tier == 'quick' else 4.0)


def bounds(prop, tier):
    return {}


def assumptions(prop):
    return []
