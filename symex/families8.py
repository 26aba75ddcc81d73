"""Harnesses: MPI operators and datatypes."""
from . import fp
from .fp import pow2
from .spec import FM, NC, BASE
from .acc import Acc, model
from .families import expect_all
from .families6 import Scaled, merge, special

OPS = {'d': 0, 's': 1, 'z': 2, 'c': 3}


def h_reduce(X, t, fold, N, sx, sy):
    """the operator combines N packed accumulators of X into those of Y as merging does; the datatype covers an accumulator exactly"""
    nc = NC[t]
    A = Acc(X, t, fold, 'X', list(sx), None, ro=True, count=N)
    B = Acc(X, t, fold, 'Y', list(sy), None, count=N)
    ms = []
    for e in range(N):
        row = [model(B, c, e) for c in range(nc)]
        for c in range(nc):
            row[c].merge(model(A, c, e))
        ms.append(row)
    X.eq('operator exists', 32, X.call('verif_reduce', 'i', OPS[t], fold, A.pbuf, B.pbuf, N), 0)
    X.eq('extent of the datatype', 32, X.call('verif_extent', 'i', OPS[t], fold), 2 * fold * nc * FM[t].w // 8)
    for e in range(N):
        expect_all(B, ms[e], 'entry %d' % e, e)


def h_reducesq(X, t, fold, N, sx, kx, sy, ky):
    """the operator for scaled accumulators: each is its scaling factor followed by the accumulator"""
    from .families5 import Part, join, same_class
    fm = FM[t]
    w = fm.w
    n = 2 * fold + 1

    def scaled(name, st, ks, ro):
        accs = [Acc(X, t, fold, '%s%d' % (name, e), [st[e]]) for e in range(N)]
        v = {}
        for e in range(N):
            v[e * n] = 0 if ks[e] is None else fp.enc(w, pow2(ks[e]))
            if accs[e].start[0][2] is None:
                continue
            for k, (p, c) in enumerate(accs[e].start[0][2]):
                v[e * n + 1 + k], v[e * n + 1 + fold + k] = p, c
        return accs, X.buf(name, w, n * N, v, ro=ro)
    A, U = scaled('X', sx, kx, True)
    B, V = scaled('Y', sy, ky, False)
    X.eq('operator exists', 32, X.call('verif_reduce', 'i', 4 if t == 'd' else 5, fold, U, V, N), 0)
    X.eq('extent of the datatype', 32, X.call('verif_extent', 'i', 4 if t == 'd' else 5, fold), n * w // 8)
    for e in range(N):
        if special(A[e]) or special(B[e]):
            X.ensure('entry %d: first word' % e, same_class(X, w, X.get(V, e * n + 1), join(Part(A[e], 0).c, Part(B[e], 0).c)))
            continue
        x, y = Scaled(model(A[e]), kx[e]), Scaled(model(B[e]), ky[e])
        k = max([s for s in (kx[e], ky[e]) if s is not None], default=None)
        X.same_bits('scaling factor of entry %d' % e, w, X.get(V, e * n), 0 if k is None else fp.enc(w, pow2(k)))
        if k is not None:
            merge(y, x)
        else:
            y.merge(x)
        y.check()
        if y.I is None:
            for i in range(2 * fold):
                X.eq('entry %d word %d' % (e, i), w, X.get(V, e * n + 1 + i), 0)
        else:
            X.state('entry %d' % e, fm, fold, y.I, y.T, V, e * n + 1, 1, V, e * n + 1 + fold, 1)
