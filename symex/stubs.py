"""Contracts that replace calls inside larger harnesses.  Each is the statement that another harness proves of the real code."""
from . import fp
from .fp import add_exact, Aff, p2
from .engine import Ptr, Violation
from .ir import UNDEF


def sgn(x):
    return x - (1 << 32) if x >> 31 else x


def carry_atom(E, w, v, K):
    """what renormalising the primary part v moves to the carry: a function of v"""
    key = ('c', K, v.key())
    n = E.atoms.get(key)
    if n is None:
        n = E.atoms[key] = fp.Atom(key, w, 'int', g=0, lo=-(2 << fp.SC), hi=1 << fp.SC)
    return n


def renorm(fm):
    """binned_?mrenorm: contract proved in R15 (harness h_renorm)"""
    w = fm.w
    sz = fm.size

    def f(E, a):
        fold, pri, ip, car, ic = a
        fold, ip, ic = sgn(fold), sgn(ip), sgn(ic)
        if fold <= 0:
            return None
        p0 = E.load1(pri, sz)
        if isinstance(p0, int) and (p0 == 0 or not fp.isfin_b(w, p0)):
            return None
        for i in range(fold):
            pp, cp = Ptr(pri.o, pri.off + sz * i * ip), Ptr(car.o, car.off + sz * i * ic)
            v, c = E.load1(pp, sz), E.load1(cp, sz)
            if v is UNDEF or c is UNDEF:
                raise Violation('uninitialised', 'renormalisation of an uninitialised accumulator')
            v = fp.to_val(E, w, v)
            if isinstance(v, int):
                kd, s, fr = fp.dec(w, v)
                if kd == 'fin' and fr > 0:
                    v = fp.const_aff(w, fp.norm(fr))
            ai = fp.acc_info(E, w, v) if isinstance(v, Aff) else None
            if ai is None:
                if i == 0 and isinstance(v, Aff) and fp.rng(E, v) is None:
                    # possibly non-finite first part: left alone when it is
                    if only_special(E, w, v):
                        return None
                raise Violation('precondition', 'renormalisation of a primary part outside one binade: %s %s' % (str(v)[:300], E.fpst.range_notes[:2]))
            K, u, r = ai
            if r[0] >= p2(K) * 3 // 2 and r[1] < p2(K) * 7 // 4:
                E.store1(pp, sz, v)          # already canonical: unchanged, carry + 0
                continue
            n = carry_atom(E, w, v, K)
            nv = add_exact(v, Aff(w, {n: -fp.norm(fp.pow2(K - 2))}, 0, K - 2))
            nv.setr(p2(K) * 3 // 2, p2(K) * 7 // 4 - p2(u))
            nv.g = u
            E.store1(pp, sz, nv)
            E.store1(cp, sz, fp.fadd(E, w, c, fp.atom_aff(n)))
        return None
    return f


def only_special(E, w, v):
    return False


def standard():
    from .spec import D, S
    return {'binned_dmrenorm': renorm(D), 'binned_smrenorm': renorm(S)}


def conv(fm):
    """binned_?mconv as an unknown function of the accumulator's contents: the conversion itself is R12"""
    w, sz = fm.w, fm.size

    def f(E, a):
        fold, pri, ip, car, ic = a
        fold, ip, ic = sgn(fold), sgn(ip), sgn(ic)
        vs = []
        for i in range(fold):
            for p, s in ((pri, ip), (car, ic)):
                v = E.load1(Ptr(p.o, p.off + sz * i * s), sz)
                if v is UNDEF:
                    raise Violation('uninitialised', 'conversion of an uninitialised accumulator')
                vs.append(fp.to_val(E, w, v))
        if all(isinstance(v, int) and not v << 1 & ((1 << w) - 1) for v in vs):
            return 0
        r = fp.opaque(E, w, 'conv', *vs)
        # a number; what is not finite is the subject of other harnesses
        (at, _), = r.terms.items()
        at.anyval = False
        E.fpst.bnd[at] = p2(fp.FMT[w]['emax'] - 1)
        return r
    return f


def wrappers():
    from .spec import D, S
    d = standard()
    d.update({'binned_ddmconv': conv(D), 'binned_ssmconv': conv(S)})
    return d


SETS = {'std': standard, 'wrap': wrappers}
