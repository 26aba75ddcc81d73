"""Worlds in which a harness runs: symbolic (SymX), concrete interpretation of the IR (ConcX) and the real library (RealX).

A harness is written once: it builds buffers, calls library functions, reads results and states what must hold.  In
SymX the values are symbolic and every statement becomes a solver query; in RealX the same harness runs on the
shared object compiled by gcc, which is how a counterexample is replayed; ConcX runs the interpreter on concrete
values, to compare it with the real library (translator validation)."""
import ctypes, mmap, random, struct, time
from fractions import Fraction
import z3
from . import fp, spec
from .fp import Aff, const_aff, add_exact, scale_exact, pow2, p2
from .ir import UNDEF
from .engine import Engine, Ptr, Obj, Violation, Unsupported, Infeasible
from .spec import as_aff


class Buf:
    __slots__ = ('X', 'name', 'w', 'n', 'ro', 'impl', 'inited', 'orig', 'declared')

    def at(self, i):
        return (self, i)


class Mismatch(Exception):
    def __init__(self, label, msg):
        Exception.__init__(self, '%s: %s' % (label, msg))
        self.label, self.msg = label, msg


# ------------------------------------------------------------------------------------------------------------------
class SymX:
    sym = True

    def __init__(self, E, sampler=None):
        self.E = E
        self.smp = sampler
        self.conc = sampler is not None
        self.bufs = []
        self.obl = []
        self.trace = []
        self.owned = []
        self.nchecks = 0

    # -- values
    def val(self, name, w, hi, lo=None, nonneg=False, g=None):
        """a finite value with |v| < 2^hi (and >= 2^lo)"""
        if self.conc:
            return self.smp.val(name, w, hi, lo, nonneg, g)
        F = fp.FMT[w]
        if isinstance(hi, Fraction):
            # the largest magnitude allowed
            v = fp.data(self.E, name, w, bound=fp.scaled(hi), nonneg=nonneg, g=g)
            if lo is not None:
                self.atleast(w, v, lo)
            return v
        hi = min(hi, F['emax'])
        b = p2(hi) - p2(max(hi - F['p'], F['gmin']))
        if g is not None:
            b = p2(hi) - p2(max(g, hi - F['p']))
        v = fp.data(self.E, name, w, bound=b, nonneg=nonneg, g=g)
        if lo is not None:
            self.atleast(w, v, lo)
        return v

    def anyval(self, name, w, finite=False):
        """any bit pattern"""
        if self.conc:
            return self.smp.anybits(name, w, finite)
        if finite:
            return fp.data(self.E, name, w)
        return fp.data(self.E, name, w, anyval=True)

    def bits(self, v, w):
        """the bit pattern of a value, as an integer or a bit-vector"""
        if isinstance(v, int):
            return v
        if isinstance(v, fp.Val):
            return fp.bits_of(self.E, v)
        return v

    def concrete(self, v, w):
        if isinstance(v, int):
            return v
        return self.E.concretize(self.bits(v, w), w)

    def base_index(self, p, w):
        """element offset of a returned pointer within its object"""
        return p.off * 8 // w

    def atleast(self, w, v, lo):
        (a, _), = v.terms.items()
        lo = fp.lowest(lo)
        self.E.fpst.least[a] = lo
        x = fp.atom_bits(self.E, a)
        self.E.assume(z3.UGE(z3.Extract(w - 2, 0, x), z3.BitVecVal(fp.enc(w, lo), w - 1)))

    def split(self, fm, J):
        """the two factors of a product below 2^hi(J), in the concrete worlds"""
        if self.conc:
            lo = max(fm.gmin + 2, fm.hi(J) - fm.emax + 1)
            h = self.smp.r.randrange(lo, min(fm.emax - 1, fm.hi(J) - fm.gmin - 2) + 1)
            self.hs = (h, fm.hi(J) - h)

    def pair(self, nx, ny, w):
        if self.conc:
            return self.smp.val(nx, w, self.hs[0]), self.smp.val(ny, w, self.hs[1])
        F = fp.FMT[w]
        return self.val(nx, w, F['emax']), self.val(ny, w, F['emax'])

    def product(self, w, a, b, hi, lo=None):
        """the rounded product, below 2^hi in magnitude (and >= 2^lo)"""
        v = fp.fmul(self.E, w, a, b)
        if not self.conc:
            F = fp.FMT[w]
            (at, c), = v.terms.items()
            at.anyval = False
            self.E.fpst.bnd[at] = p2(hi) - p2(max(hi - F['p'], F['gmin']))
            self.E.fpst.ver += 1
            if lo is not None:
                self.atleast(w, v, lo)
        return v

    def group(self, w, vals, lo, hi):
        """the largest magnitude among vals is >= 2^lo (they are all < 2^hi already)"""
        if self.conc or lo is None:
            return
        keys = set()
        for v in vals:
            if isinstance(v, int):
                v = as_aff(w, v)
            keys.add(fp.vkey(fp.fabs(self.E, w, v)))
        if len(keys) == 1:
            self.atleast(w, fp.fabs(self.E, w, v), lo)
            return
        self.E.fpst.groups.append((frozenset(keys), lo, hi))

    def intval(self, name, w, lo, hi):
        """an integer-valued float in [lo, hi]"""
        if self.conc:
            return fp.enc(w, Fraction(self.smp.integer(name, lo, hi)))
        a = fp.Atom(('n', name), w, 'int', g=0, lo=lo << fp.SC, hi=hi << fp.SC)
        return fp.atom_aff(a)

    def gridval(self, name, w, g, lo, hi):
        """lo + k*2^g within [lo, hi], exact Fractions"""
        n = (Fraction(hi) - Fraction(lo)) / pow2(g)
        if self.conc:
            k = self.smp.integer(name, 0, int(n))
            return fp.enc(w, Fraction(lo) + k * pow2(g))
        a = fp.Atom(('n', name), w, 'int', g=g, lo=fp.scaled(Fraction(0)), hi=fp.scaled(Fraction(int(n)) * pow2(g)))
        r = add_exact(fp.atom_aff(a), const_aff(w, fp.norm(Fraction(lo))))
        r.setr(fp.scaled(Fraction(lo)), fp.scaled(Fraction(lo)) + a.hi)
        return r

    def choose(self, name, options):
        """a concrete choice (a case split in the symbolic world)"""
        if self.conc:
            return self.smp.choice(name, options)
        for i, o in enumerate(options[:-1]):
            if self.E.decide(z3.Bool('choice!%s!%d' % (name, i))):
                return o
        return options[-1]

    # -- exact values and rounding errors
    def exact_sum(self, fs):
        r = fs[0] if isinstance(fs[0], Aff) else const_aff(64, fp.norm(Fraction(fs[0])))
        for f in fs[1:]:
            r = add_exact(r, f if isinstance(f, Aff) else const_aff(64, fp.norm(Fraction(f))))
        return r

    def limit(self, f, lo=None, hi=None):
        """only inputs for which lo <= f <= hi are looked at"""
        if self.conc:
            if (lo is not None and f.const < lo) or (hi is not None and f.const > hi):
                raise Infeasible()
            return
        self.E.fpst.limits.append((f, lo, hi))

    def within(self, label, w, got, exact, bound):
        """|got - exact| <= bound, a value computed by the code"""
        if self.conc:
            k, s, v = fp.dec(w, got)
            kb, sb, b = fp.dec(w, bound)
            if kb == 'inf' and not sb:
                return
            if k != 'fin' or kb != 'fin' or abs(v - exact.const) > b:
                self.fail(label, '%#x for the exact value %s with bound %#x' % (got, float(exact.const), bound))
            return
        from . import lra
        for v in (got, bound):
            if v is UNDEF:
                self.fail(label, 'not initialised')
            if fp.rng(self.E, as_aff(w, v)) is None:
                self.fail(label, 'not finite')
        L = lra.LRA(self.E)
        d = L.lin(add_exact(as_aff(w, got), exact, sub=True))
        b = L.lin(as_aff(w, bound))
        self.nchecks += 1
        if L.sat(z3.Or(d > b, d < -b)):
            hs = [lra.hints(L, self.E, z3.Or(d > k * b, d < -k * b)) for k in (L.q(1 << 40), L.q(1 << 20), L.q(64), L.q(2))]
            self.fail(label, 'the error can exceed the bound', [h for h in hs if h])

    def near(self, label, w, got, exact, rel, absolute=0):
        """|got - exact| <= rel * |exact| + absolute"""
        if self.conc:
            k, s, v = fp.dec(w, got)
            if k != 'fin' or abs(v - exact.const) > rel * abs(exact.const) + absolute:
                self.fail(label, '%#x for the exact value %s' % (got, float(exact.const)))
            return
        from . import lra
        if got is UNDEF:
            self.fail(label, 'not initialised')
        got = as_aff(w, got)
        if fp.rng(self.E, got) is None:
            self.fail(label, 'not finite')
        L = lra.LRA(self.E)
        d = L.lin(add_exact(got, exact, sub=True))
        t = L.lin(exact)
        b, a = L.q(rel), L.q(absolute)
        self.nchecks += 1
        if L.sat(z3.Or(z3.And(t >= 0, z3.Or(d > b * t + a, d < -b * t - a)), z3.And(t < 0, z3.Or(d > -b * t + a, d < b * t - a)))):
            big = lambda k: z3.Or(z3.And(t >= 0, z3.Or(d > k * (b * t + a), d < -k * (b * t + a))), z3.And(t < 0, z3.Or(d > k * (a - b * t), d < k * (b * t - a))))
            hs = [lra.hints(L, self.E, big(k)) for k in (L.q(1 << 40), L.q(1 << 20), L.q(64), L.q(2))]
            self.fail(label, 'the error can exceed the bound', [h for h in hs if h])

    # -- memory
    def buf(self, name, w, n, init=None, ro=False):
        b = Buf()
        b.X, b.name, b.w, b.n, b.ro = self, name, w, n, ro
        o = self.E.new_obj(name, n * w // 8)
        b.impl = o
        b.inited = dict(init) if isinstance(init, dict) else dict(enumerate(init)) if init is not None else {}
        b.declared = None
        for i, v in b.inited.items():
            o.cells[i * w // 8] = (w // 8, v)
        o.ro = ro
        self.bufs.append(b)
        return b

    def get(self, b, i):
        v = self.E.load1(Ptr(b.impl, i * b.w // 8), b.w // 8)
        if isinstance(v, z3.BitVecRef):
            v = fp.from_bits(self.E, b.w, v)
        return v

    def own(self, p):
        """a pointer returned to the caller as a buffer"""
        if not isinstance(p, Ptr):
            raise Violation('memory', 'no object returned')
        self.owned.append(p.o)
        return p

    def wrap(self, p, name, w, n=None):
        b = Buf()
        b.X, b.name, b.w, b.ro, b.impl, b.inited = self, name, w, False, p.o, {}
        b.n = p.o.size * 8 // w
        b.declared = True
        return b

    def size_of(self, b):
        return b.impl.size

    def call(self, fn, ret, *args):
        a = []
        for x in args:
            if isinstance(x, tuple):
                if isinstance(x[0], Buf):
                    a.append(Ptr(x[0].impl, x[1] * x[0].w // 8))
                else:
                    a.append(x[1])
            elif isinstance(x, Buf):
                a.append(Ptr(x.impl, 0))
            elif isinstance(x, Ptr):
                a.append(x)
            elif isinstance(x, int):
                a.append(x & 0xffffffff)
            else:
                raise Unsupported('argument %r' % (x,))
        f = self.E.prog.find(fn)
        if f is not None:
            # the width of integer arguments comes from the function
            for i, (pt, v) in enumerate(zip(f.params, a)):
                t = pt[0] if isinstance(pt[0], tuple) else pt
                if t[0] == 'i' and isinstance(v, int):
                    n = t[1]
                    v = args[i]
                    a[i] = v & ((1 << n) - 1)
        r = self.E.call(fn, a)
        if ret in ('d', 's') and isinstance(r, z3.BitVecRef):
            r = fp.from_bits(self.E, 64 if ret == 'd' else 32, r)
        if ret == 'i' and isinstance(r, int) and r >> 31:
            r -= 1 << 32
        self.trace.append(('ret', fn, r))
        return r

    # -- statements
    def fail(self, label, msg, hints=None):
        raise Violation('mismatch', '%s: %s' % (label, msg), info=hints or None)

    def ensure(self, label, cond):
        """cond: bool or z3 Bool"""
        self.nchecks += 1
        if isinstance(cond, (bool, int)):
            if not cond:
                self.fail(label, 'does not hold')
            return
        if self.E.check(z3.Not(cond)):
            m = self.E.model(z3.Not(cond))
            raise Violation('mismatch', label, info=self.hints(m))

    def eq(self, label, w, a, b):
        """two stored values are the same number (bit patterns when concrete)"""
        self.nchecks += 1
        if a is UNDEF or b is UNDEF:
            self.fail(label, 'uninitialised value')
        if isinstance(a, int) and isinstance(b, int):
            if a != b and not (fp.isnan_b(w, a) and fp.isnan_b(w, b)):
                self.fail(label, '%#x instead of %#x' % (a, b))
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and not fp.isfin_b(w, x):
                # an opaque value may be known to be the same only when it is literally so
                if fp.vkey(y) != fp.vkey(x):
                    self.fail(label, '%r instead of %r' % (a, b))
                return
        if fp.vkey(a) == fp.vkey(b):
            return
        if isinstance(a, fp.OrOne) or isinstance(b, fp.OrOne):
            self.fail(label, '%r instead of %r' % (a, b))
        self.obl.append((label, as_aff(w, a), as_aff(w, b)))

    def eqlin(self, label, a, b):
        self.nchecks += 1
        self.obl.append((label, a, b))

    def state(self, label, fm, fold, I, totals, pri, ipri, incp, car, icar, incc):
        """the accumulator at (pri, car) has window start I and holds exactly the totals, in canonical form"""
        w = fm.w
        for k in range(fold):
            p = self.get(pri, ipri + k * incp)
            c = self.get(car, icar + k * incc)
            self.trace.append(('st', label, k, p, c))
            if p is UNDEF or c is UNDEF:
                self.fail(label, 'level %d is not initialised' % k)
            t = totals[k] if isinstance(totals[k], Aff) else const_aff(w, fp.norm(Fraction(totals[k])))
            if isinstance(p, int) and isinstance(c, int) and not t.terms:
                ep, ec = spec.canonical(fm, I + k, t.const)
                if (p, c) != (ep, ec):
                    self.fail(label, 'level %d is (%#x,%#x), expected (%#x,%#x)' % (k, p, c, ep, ec))
                self.nchecks += 1
                continue
            try:
                p, c = as_aff(w, p), as_aff(w, c)
            except ValueError:
                self.fail(label, 'level %d is not finite' % k)
            u = fm.ufp(I + k)
            r = fp.rng(self.E, p)
            if r is None or r[0] < p2(u) * 3 // 2 or r[1] >= p2(u) * 7 // 4 or p.g < fm.ulp(I + k):
                self.fail(label, 'level %d primary part is not in canonical form for bin %d: %s' % (k, I + k, describe(self.E, p)))
            rc = fp.rng(self.E, c)
            if rc is None or c.g < 0:
                self.fail(label, 'level %d carry is not an integer' % k)
            got = add_exact(add_exact(p, const_aff(w, fp.norm(-fm.base(I + k)))), scale_exact(c, pow2(u - 2)))
            self.nchecks += 1
            self.obl.append((label + ' bin %d' % k, got, t))

    def eqlevel(self, label, fm, p, c, p2_, c2):
        """two levels in canonical form (both primary parts in the same quarter) hold the same amount"""
        w = fm.w
        if all(isinstance(v, int) for v in (p, c, p2_, c2)):
            self.eq(label + ' primary', w, p, p2_)
            self.eq(label + ' carry', w, c, c2)
            return
        for v in (p, c, p2_, c2):
            if v is UNDEF:
                self.fail(label, 'not initialised')
        p, c, q, d = (as_aff(w, v) for v in (p, c, p2_, c2))
        a, b = fp.rng(self.E, p), fp.rng(self.E, q)
        if a is None or b is None:
            self.fail(label, 'not finite')
        K = a[0].bit_length() - 1 - fp.SC
        for r, v in ((a, p), (b, q)):
            if r[0] < p2(K) * 3 // 2 or r[1] >= p2(K) * 7 // 4:
                self.fail(label, 'not in the canonical quarter of one binade: %s / %s' % (describe(self.E, p), describe(self.E, q)))
        self.nchecks += 1
        self.obl.append((label, add_exact(p, scale_exact(c, pow2(K - 2))), add_exact(q, scale_exact(d, pow2(K - 2)))))

    def flush(self):
        """put all pending equalities of this path to the solver"""
        obl, self.obl = self.obl, []
        if not obl:
            return
        E = self.E
        s = z3.Solver()
        s.set('timeout', 60000)
        names = {}

        def var(a):
            v = names.get(a)
            if v is None:
                v = names[a] = z3.Real('a%d' % len(names))
            return v

        def lin(f):
            return z3.Sum([z3.RealVal(str(c)) * var(a) for a, c in f.terms.items()] + [z3.RealVal(str(f.const))])
        bad = [i for i, (l, a, b) in enumerate(obl)]
        t0 = time.time()
        ds = []
        for l, a, b in obl:
            d = add_exact(a, b, sub=True)
            ds.append(d)
        # the difference of two long sums is formed exactly before it is handed to the solver
        cs = [lin(d) != 0 for d in ds]
        s.add(z3.Or(*cs))
        for a, v in list(names.items()):
            r = fp.atom_rng(E, a)
            if r is not None:
                s.add(v >= z3.RealVal(str(Fraction(r[0], fp.ONE))), v <= z3.RealVal(str(Fraction(r[1], fp.ONE))))
        r = s.check()
        E.queries += 1
        E.solver_s += time.time() - t0
        if r == z3.unknown:
            raise Unsupported('solver answered unknown on the final equalities')
        if r == z3.sat:
            m = s.model()
            for (l, a, b), c, d in zip(obl, cs, ds):
                if z3.is_true(m.eval(c, model_completion=True)):
                    raise Violation('mismatch', '%s: difference %s' % (l, str(d)[:400]), info=self.hints(None))
            raise Violation('mismatch', 'an equality fails')

    def hints(self, m):
        """values of named inputs in a model of the path condition"""
        E = self.E
        try:
            if m is None:
                m = E.model()
        except Exception:
            return None
        out = {}
        if m is not None:
            for a, b in E.fpst.bitvar.items():
                if a.kind == 'x':
                    out[a.key[1]] = m.eval(b, model_completion=True).as_long()
        return out

    def finish(self):
        E = self.E
        for b in self.bufs:
            if b.declared is None and not b.ro:
                pass
        for o in E.objs:
            if o.heap and not o.freed and o not in self.owned:
                raise Violation('leak', 'a block of %d bytes is never released' % o.size)
        self.flush()

    def untouched(self, b, used):
        """no element of b outside the index set used was written"""
        sz = b.w // 8
        for off, c in b.impl.cells.items():
            for k in range(off // sz, (off + c[0] - 1) // sz + 1):
                if k not in used:
                    if k in b.inited and c[0] == sz and fp.vkey(c[1]) == fp.vkey(b.inited[k]):
                        continue
                    raise Violation('memory', 'element %d of %s was written' % (k, b.name))

    def snapshot(self, b):
        return dict(b.impl.cells)

    def same_bits(self, label, w, a, b):
        self.eq(label, w, a, b)

    def note(self, *a):
        self.trace.append(a)


def describe(E, p):
    return '%s in %s' % (str(p)[:200], fp.rng(E, p))


# ------------------------------------------------------------------------------------------------------------------
libc = ctypes.CDLL(None, use_errno=True)
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = 4096


class RealX:
    sym = False
    conc = True

    def __init__(self, lib, sampler, gap=0x5a, guard='after'):
        self.lib = lib
        self.smp = sampler
        self.bufs = []
        self.trace = []
        self.maps = []
        self.gap = gap
        self.guard = guard
        self.E = DummyE()
        self.leaky = []

    val = SymX.val
    anyval = SymX.anyval
    bits = SymX.bits

    def concrete(self, v, w):
        return v

    def base_index(self, p, w):
        return 0

    exact_sum = SymX.exact_sum
    limit = SymX.limit
    near = SymX.near
    within = SymX.within
    intval = SymX.intval
    gridval = SymX.gridval
    choose = SymX.choose
    split = SymX.split
    pair = SymX.pair
    product = SymX.product

    def group(self, *a):
        pass

    def buf(self, name, w, n, init=None, ro=False):
        b = Buf()
        b.X, b.name, b.w, b.n, b.ro = self, name, w, n, ro
        size = n * w // 8
        np = (size + PAGE - 1) // PAGE + 2
        m = mmap.mmap(-1, np * PAGE)
        base = ctypes.addressof(ctypes.c_char.from_buffer(m))
        if libc.mprotect(base, PAGE, 0) or libc.mprotect(base + (np - 1) * PAGE, PAGE, 0):
            raise OSError('mprotect')
        addr = base + (np - 1) * PAGE - size if self.guard == 'after' else base + PAGE
        b.impl = addr
        b.declared = None
        self.maps.append(m)
        ctypes.memset(base + PAGE, self.gap, (np - 2) * PAGE)
        b.inited = dict(init) if isinstance(init, dict) else dict(enumerate(init)) if init is not None else {}
        for i, v in b.inited.items():
            ctypes.memmove(addr + i * w // 8, v.to_bytes(w // 8, 'little'), w // 8)
        b.orig = ctypes.string_at(addr, size)
        if ro:
            pass
        self.bufs.append(b)
        return b

    def raw(self, b):
        return ctypes.string_at(b.impl, b.n * b.w // 8)

    def get(self, b, i):
        sz = b.w // 8
        if b.n is not None and not 0 <= i < b.n:
            raise Mismatch('memory', 'element %d of %s' % (i, b.name))
        return int.from_bytes(ctypes.string_at(b.impl + i * sz, sz), 'little')

    def own(self, p):
        self.leaky.append(p)
        if not p:
            raise Mismatch('memory', 'no object returned')
        return p

    def wrap(self, p, name, w, n=None):
        b = Buf()
        b.X, b.name, b.w, b.ro, b.impl, b.inited, b.n, b.declared = self, name, w, False, p, {}, n, True
        return b

    def size_of(self, b):
        libc.malloc_usable_size.restype = ctypes.c_size_t
        libc.malloc_usable_size.argtypes = [ctypes.c_void_p]
        return libc.malloc_usable_size(b.impl)

    def call(self, fn, ret, *args):
        f = getattr(self.lib, fn)
        a = []
        for x in args:
            if isinstance(x, tuple):
                if isinstance(x[0], Buf):
                    a.append(ctypes.c_void_p(x[0].impl + x[1] * x[0].w // 8))
                elif x[0] == 'd':
                    a.append(ctypes.c_double.from_buffer_copy(x[1].to_bytes(8, 'little')))
                else:
                    a.append(ctypes.c_float.from_buffer_copy(x[1].to_bytes(4, 'little')))
            elif isinstance(x, Buf):
                a.append(ctypes.c_void_p(x.impl))
            else:
                a.append(ctypes.c_int(x))
        f.argtypes = None
        f.restype = {None: None, 'd': ctypes.c_double, 's': ctypes.c_float, 'i': ctypes.c_int, 'p': ctypes.c_void_p, 'n': ctypes.c_size_t}[ret]
        r = f(*a)
        if ret == 'd':
            r = fp.f2b(64, r)
        elif ret == 's':
            # a float converted to a Python float keeps its value; NaN payloads are not compared
            r = fp.f2b(32, r)
        self.trace.append(('ret', fn, r if ret != 'p' else 0))
        return r

    def fail(self, label, msg, hints=None):
        raise Mismatch(label, msg)

    def ensure(self, label, cond):
        if not cond:
            raise Mismatch(label, 'does not hold')

    def eq(self, label, w, a, b):
        if a != b and not (fp.isnan_b(w, a) and fp.isnan_b(w, b)) and not (a << 1) & ((1 << w) - 1) == (b << 1) & ((1 << w) - 1) == 0:
            raise Mismatch(label, '%#x instead of %#x' % (a, b))

    same_bits = eq

    def eqlin(self, label, a, b):
        if a.const != b.const:
            raise Mismatch(label, '%s instead of %s' % (a, b))

    def state(self, label, fm, fold, I, totals, pri, ipri, incp, car, icar, incc):
        for k in range(fold):
            p = self.get(pri, ipri + k * incp)
            c = self.get(car, icar + k * incc)
            self.trace.append(('st', label, k, p, c))
            t = totals[k].const if isinstance(totals[k], Aff) else totals[k]
            ep, ec = spec.canonical(fm, I + k, t)
            if p != ep or (c != ec and not (c << 1) & ((1 << fm.w) - 1) == (ec << 1) & ((1 << fm.w) - 1) == 0):
                raise Mismatch(label, 'level %d is (%#x,%#x), expected (%#x,%#x)' % (k, p, c, ep, ec))

    def eqlevel(self, label, fm, p, c, p2_, c2):
        self.eq(label + ' primary', fm.w, p, p2_)
        self.eq(label + ' carry', fm.w, c, c2)

    def flush(self):
        pass

    def finish(self):
        for b in self.bufs:
            if b.ro and self.raw(b) != b.orig:
                raise Mismatch('memory', 'input %s was modified' % b.name)

    def untouched(self, b, used):
        now = self.raw(b)
        sz = b.w // 8
        for k in range(b.n):
            if k not in used and now[k * sz:(k + 1) * sz] != b.orig[k * sz:(k + 1) * sz]:
                raise Mismatch('memory', 'element %d of %s was written' % (k, b.name))

    def note(self, *a):
        self.trace.append(a)


class DummyE:
    """stands in for the engine when only concrete values occur"""
    inexact = 'uf'
    pcn = 0

    def __init__(self):
        self.atoms = {}
        self.fpst = fp.State(self)


# ------------------------------------------------------------------------------------------------------------------
class Sampler:
    """concrete values for the named inputs of a harness"""

    def __init__(self, seed, hints=None, mode=None):
        self.r = random.Random(seed)
        self.mode = self.r.randrange(9) if mode is None else mode
        self.hints = hints or {}
        self.used = {}
        self.sgn = self.r.getrandbits(1)
        self.pick = self.r.randrange(1, 9)
        self.count = 0
        self.top = self.r.random()

    def val(self, name, w, hi, lo=None, nonneg=False, g=None):
        v = self.hints.get(name)
        if v is None:
            v = self._val(w, hi, lo, nonneg, g)
        self.used[name] = v
        return v

    def anybits(self, name, w, finite=False):
        v = self.hints.get(name)
        if v is None:
            r = self.r
            F = fp.FMT[w]
            top = (1 << F['ebits']) - 1
            e = r.choice([0, 1, top - 1, top, r.randrange(top + 1), r.randrange(top + 1), r.randrange(top + 1)])
            if e == top and finite:
                e = top - 1
            m = r.choice([0, (1 << F['mb']) - 1, 1, r.getrandbits(F['mb']), r.getrandbits(F['mb']), 1 << r.randrange(F['mb'])])
            if e == top and m:
                m = 1 << (F['mb'] - 1)
            v = r.getrandbits(1) << (w - 1) | e << F['mb'] | m
        self.used[name] = v
        return v

    def _val(self, w, hi, lo, nonneg, g):
        r = self.r
        if isinstance(hi, Fraction):
            top = fp.log2x(hi) if fp.is_pow2(hi) else (hi.numerator.bit_length() - hi.denominator.bit_length()) + 1
            low = None if lo is None else (lo.numerator.bit_length() - lo.denominator.bit_length()) - 1 if isinstance(lo, Fraction) else lo
            for _ in range(200):
                v = self._val(w, top + 1, low, nonneg, g)
                x = abs(fp.dec(w, v)[2])
                if x <= hi and (lo is None or x >= fp.lowest(lo)):
                    return v
            return fp.enc(w, hi)
        F = fp.FMT[w]
        hi = min(hi, F['emax'])
        gm = F['gmin'] if g is None else max(g, F['gmin'])
        lom = lo if lo is not None else gm
        m = self.mode
        self.count += 1
        s = 0 if nonneg else r.getrandbits(1)
        if m in (1, 2) and not nonneg:
            s = self.sgn
        if m == 4 and lo is None and self.count % self.pick and r.random() < .8:
            return 0
        if m == 6 and lo is None and r.random() < .3:
            return r.choice([0, 1 << (w - 1)]) if not nonneg else 0
        # exponent of the top bit: value in [2^e, 2^(e+1))
        if m in (1, 2):
            e = hi - 1
        elif m in (3, 5):
            e = hi - 1 - r.randrange(0, max(1, min(3 * F['p'] // 2, hi - lom)))
        elif m == 8:
            e = hi - 1 - int((hi - lom) * min(1, r.random() * self.top))
        elif m == 7:
            e = r.randrange(lom, hi) if hi > lom else lom
        else:
            e = hi - 1 - r.randrange(0, max(1, min(F['p'] - 2 if lo is None else hi - lo, hi - lom)))
        e = max(e, lom)
        nb = min(F['p'], e - gm + 1)
        if m == 1:
            k = (1 << nb) - 1
        elif m == 5:
            k = 1 << (nb - 1)
            for _ in range(r.randrange(0, 4)):
                k |= 1 << r.randrange(nb)
            if r.random() < .3:
                k = (1 << nb) - (1 << r.randrange(nb))
        else:
            k = (1 << (nb - 1)) | r.getrandbits(max(1, nb - 1)) if nb > 1 else 1
        v = Fraction(k) * pow2(e - nb + 1)
        return fp.enc(w, -v if s else v)

    def integer(self, name, lo, hi):
        v = self.hints.get(name)
        if v is None:
            r = self.r
            q = r.random()
            if q < .2:
                v = lo
            elif q < .4:
                v = hi
            elif q < .6:
                v = min(hi, max(lo, r.randrange(-3, 4)))
            elif q < .8:
                v = r.randrange(lo, hi + 1)
            else:
                k = r.randrange(0, max(1, (hi - lo).bit_length()))
                v = min(hi, lo + (1 << k)) if r.random() < .5 else max(lo, hi - (1 << k))
        self.used[name] = v
        return v

    def choice(self, name, options):
        v = self.hints.get(name)
        if v is None:
            v = self.r.randrange(len(options))
        self.used[name] = v
        return options[v]
