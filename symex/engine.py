"""Symbolic executor for the LLVM IR of the real code.

Values: Python int = concrete bit pattern (integers and IEEE values alike), tuple = vector or aggregate,
Ptr = pointer, z3 expression = symbolic integer, fp.* object = symbolic floating-point value, UNDEF = uninitialised.
Paths are explored by re-execution with a recorded list of decisions; every branch whose condition is symbolic
is put to the solver.
"""
import re, time
import z3
from .ir import *
from . import fp


class Violation(Exception):
    """the executed code did something the property forbids on a feasible path"""

    def __init__(self, kind, msg, info=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg, self.info = kind, msg, info


class Unsupported(Exception):
    def __init__(self, msg='', info=None):
        Exception.__init__(self, msg)
        self.info = info


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'heap', 'freed', 'ro', 'zero', 'stack', 'elem', 'reads', 'writes')

    def __init__(self, id, name, size, heap=False, stack=False):
        self.id, self.name, self.size = id, name, size
        self.cells = {}
        self.heap, self.stack, self.freed, self.ro = heap, stack, False, False
        self.zero = False
        self.reads = None
        self.writes = None

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return '&%s+%d' % (self.o.name, self.off)

    def __eq__(self, b):
        return isinstance(b, Ptr) and b.o is self.o and b.off == self.off

    def __hash__(self):
        return hash((id(self.o), self.off))


class FnPtr:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod


class Program:
    """all modules of one configuration; symbol resolution"""

    def __init__(self, paths):
        self.mods = []
        self.sym = {}
        self.gsym = {}
        for p in paths:
            self.add(p)

    def add(self, path):
        m = Module(path)
        self.mods.append(m)
        for n, f in m.funcs.items():
            if f.linkage == 'external':
                if n not in self.sym or self.sym[n].linkage != 'external':
                    self.sym[n] = f
            elif f.linkage == 'available_externally':
                self.sym.setdefault(n, f)
        for n, b in m.globals_txt.items():
            head = b.split('"')[0]
            if not re.search(r'\b(internal|private|external)\b', head.split('global')[0].split('constant')[0]):
                self.gsym[n] = m
        return m

    def find(self, name, mod=None):
        if mod is not None and name in mod.funcs and mod.funcs[name].linkage == 'internal':
            return mod.funcs[name]
        if name in self.sym:
            return self.sym[name]
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        return None


def sx(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class Frame:
    __slots__ = ('R', 'allocas')


MAXPATH_DEFAULT = 20000


class Engine:
    def __init__(self, prog, inexact='uf'):
        self.prog = prog
        self.stubs = {}
        self.pre_hooks = {}
        self.called = {}
        self.inexact = inexact       # what to do with an FP operation whose exact result is not representable
        self.queries = 0
        self.solver_s = 0.0
        self.steps = 0
        self.step_limit = 400_000_000
        self.deadline = None
        self.paths = 0
        self.fold_limit = None
        self.decisions = []
        self.reset()

    # -- path handling -------------------------------------------------------------------------
    def reset(self):
        self.pc = []
        self.pcset = {}
        self.pcn = 0
        self.solver = None
        self.nobj = 0
        self.globals = {}
        self.objs = []
        self.dpos = 0
        self.fresh = 0
        self.atoms = {}
        self.maxfacts = []
        self.notes = []
        self.leakcheck = True
        self.depth = 0
        self.fpst = fp.State(self)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.SolverFor('QF_FPBV') if False else z3.Solver()
            self.solver.set('timeout', 60000)
            for c in self.pc:
                self.solver.add(c)
        return self.solver

    def assume(self, c):
        if c is True:
            return
        c = z3.simplify(c) if not isinstance(c, bool) else c
        if c is False or z3.is_false(c):
            raise Infeasible()
        if z3.is_true(c) or c.get_id() in self.pcset:
            return
        self.pc.append(c)
        self.pcset[c.get_id()] = True
        self.pcn += 1
        if self.solver is not None:
            self.solver.add(c)

    def check(self, *cs):
        s = self._solver()
        t = time.time()
        r = s.check(*cs)
        self.queries += 1
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported('solver answered unknown: %s' % s.reason_unknown())
        return r == z3.sat

    def model(self, *cs):
        s = self._solver()
        t = time.time()
        r = s.check(*cs)
        self.queries += 1
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported('solver answered unknown: %s' % s.reason_unknown())
        return s.model() if r == z3.sat else None

    def decide(self, c):
        """truth value of a condition on this path; forks when both are feasible"""
        if isinstance(c, (bool, int)):
            return bool(c)
        if c is UNDEF:
            raise Violation('uninitialised', 'branch depends on an uninitialised value')
        if isinstance(c, fp.Cmp):
            cmp = c
            c = c.to_bool(self)
            if isinstance(c, (bool, int)):
                return bool(c)
            d = fp.difference(self, cmp) if self.inexact == 'err' else None
            if d is not None:
                # what a comparison of numbers carrying rounding errors says about their exact parts
                v = self.decide(c)
                fp.limit_difference(self, d, cmp.pred[1:], v)
                return v
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.pcset:
            return True
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in self.pcset:
            return False
        if self.dpos < len(self.decisions):
            v = self.decisions[self.dpos][0]
            self.dpos += 1
            self.assume(c if v else z3.Not(c))
            return v
        t = self.fpst.comps.check(self, c, c)
        f = self.fpst.comps.check(self, c, nc)
        if not t and not f:
            raise Infeasible()
        v = t
        self.decisions.append([v, t and f])
        self.dpos += 1
        self.assume(c if v else z3.Not(c))
        return v

    def concretize(self, e, n, limit=70):
        """value of a symbolic integer on this path; forks over its feasible values"""
        if isinstance(e, int):
            return e
        if e is UNDEF:
            raise Violation('uninitialised', 'an uninitialised value decides an address or a loop')
        if isinstance(e, z3.BoolRef):
            return int(self.decide(e))
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        for _ in range(limit):
            # a value to try: deterministic by asking the solver only when no decision is recorded
            if self.dpos < len(self.decisions):
                v = self.decisions[self.dpos][2]
                take = self.decisions[self.dpos][0]
                self.dpos += 1
                self.assume(e == v if take else e != v)
                if take:
                    return v
                continue
            m = self.model()
            if m is None:
                raise Infeasible()
            v = m.eval(e, model_completion=True).as_long()
            other = self.check(e != v)
            self.decisions.append([True, other, v])
            self.dpos += 1
            self.assume(e == v)
            return v
        raise Unsupported('too many values for a symbolic integer')

    def explore(self, run, max_paths=MAXPATH_DEFAULT):
        """run(self) once per feasible path"""
        self.decisions = []
        n = 0
        while True:
            self.reset()
            ok = True
            try:
                run(self)
            except Infeasible:
                ok = False
            if ok:
                n += 1
                self.paths += 1
            while self.decisions and not self.decisions[-1][1]:
                self.decisions.pop()
            if not self.decisions:
                return n
            d = self.decisions[-1]
            d[0] = not d[0]
            d[1] = False
            if n > max_paths:
                raise PathLimit('more than %d paths' % max_paths)

    # -- memory --------------------------------------------------------------------------------
    def new_obj(self, name, size, heap=False, stack=False):
        o = Obj(self.nobj, name, size, heap, stack)
        self.nobj += 1
        self.objs.append(o)
        return o

    def chk(self, p, n, what):
        if isinstance(p, Ptr):
            o = p.o
            if o.freed:
                raise Violation('memory', '%s of %d bytes in freed object %s' % (what, n, o.name))
            if p.off < 0 or p.off + n > o.size:
                raise Violation('memory', '%s of %d bytes at offset %d of %s (%d bytes)' % (what, n, p.off, o.name, o.size))
            return o
        if p is UNDEF:
            raise Violation('uninitialised', '%s through an uninitialised pointer' % what)
        if isinstance(p, int):
            raise Violation('memory', '%s through %s pointer' % (what, 'a null' if p == 0 else 'an invalid'))
        raise Unsupported('pointer %r' % (p,))

    def load1(self, p, n):
        o = self.chk(p, n, 'read')
        if o.reads is not None:
            o.reads.add((p.off, n))
        c = o.cells.get(p.off)
        if c is not None and c[0] == n:
            return c[1]
        return self._load_slow(o, p.off, n, c)

    def _load_slow(self, o, off, n, c):
        if c is not None and c[0] < n:
            parts = []
            k = off
            while k < off + n:
                cc = o.cells.get(k)
                if cc is None:
                    if o.zero:
                        parts.append((1, 0))
                        k += 1
                        continue
                    return UNDEF
                parts.append(cc)
                k += cc[0]
            if k != off + n:
                raise Unsupported('overlapping cells')
            if all(isinstance(v, int) for _, v in parts):
                r = 0
                s = 0
                for w, v in parts:
                    r |= v << (8 * s)
                    s += w
                return r
            if any(v is UNDEF for _, v in parts):
                return UNDEF
            return fp.Multi(tuple(parts))
        # inside a larger cell?
        for back in range(1, 33):
            cc = o.cells.get(off - back)
            if cc is not None:
                if cc[0] > back:
                    return self.extract_bytes(cc[1], cc[0], back, n)
                break
        if c is not None:
            return self.extract_bytes(c[1], c[0], 0, n)
        if o.zero:
            if any(off + k in o.cells for k in range(n)):
                raise Unsupported('partly written zero object')
            return 0
        return UNDEF

    def extract_bytes(self, v, w, at, n):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return (v >> (8 * at)) & ((1 << (8 * n)) - 1)
        if isinstance(v, fp.Multi):
            k = 0
            got = []
            for pw, pv in v.parts:
                if k >= at and k + pw <= at + n:
                    got.append((pw, pv))
                k += pw
            if sum(g[0] for g in got) == n:
                return got[0][1] if len(got) == 1 else fp.Multi(tuple(got))
        if isinstance(v, z3.BitVecRef):
            return z3.Extract(8 * (at + n) - 1, 8 * at, v)
        raise Unsupported('partial read of %r' % (v,))

    def store1(self, p, n, v):
        o = self.chk(p, n, 'write')
        if o.ro:
            raise Violation('memory', 'write to read-only object %s' % o.name)
        if o.writes is not None:
            o.writes.add((p.off, n))
        off = p.off
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # clear overlaps
        if c is not None and c[0] > n:
            self._split(o, off, c)
        else:
            for back in range(1, 33):
                cc = cells.get(off - back)
                if cc is not None:
                    if cc[0] > back:
                        self._split(o, off - back, cc)
                    break
        for k in range(off, off + n):
            cc = cells.get(k)
            if cc is not None:
                if k + cc[0] > off + n:
                    self._split(o, k, cc)
                    cc = cells.get(k)
                del cells[k]
        cells[off] = (n, v)

    def _split(self, o, off, c):
        w, v = c
        if isinstance(v, fp.Multi):
            k = off
            for pw, pv in v.parts:
                o.cells[k] = (pw, pv)
                k += pw
            return
        h = w // 2
        o.cells[off] = (h, self.extract_bytes(v, w, 0, h))
        o.cells[off + h] = (w - h, self.extract_bytes(v, w, h, w - h))

    def load(self, p, t):
        k = t[0]
        if k == 'v' or k == 'a':
            s = size_of(t[2])
            if isinstance(p, Ptr):
                self.chk(p, size_of(t), 'read')
                o, off = p.o, p.off
                return tuple(self.load(Ptr(o, off + i * s), t[2]) for i in range(t[1]))
            self.chk(p, s, 'read')
        if k == 's':
            self.chk(p, size_of(t), 'read')
            return tuple(self.load(Ptr(p.o, p.off + field_off(t, i)), e) for i, e in enumerate(t[1]))
        return self.load1(p, size_of(t))

    def store(self, p, t, v):
        k = t[0]
        if k == 'v' or k == 'a':
            s = size_of(t[2])
            self.chk(p, size_of(t), 'write')
            for i in range(t[1]):
                self.store(Ptr(p.o, p.off + i * s), t[2], v[i] if v is not UNDEF else UNDEF)
            return
        if k == 's':
            for i, e in enumerate(t[1]):
                self.store(Ptr(p.o, p.off + field_off(t, i)), e, v[i] if v is not UNDEF else UNDEF)
            return
        self.store1(p, size_of(t), v)

    def global_ptr(self, mod, name, off):
        f = None
        if name in mod.globals_txt:
            t, init, const, internal = mod.glob(name)
            if init is None or (not internal and name in self.prog.gsym):
                if name in self.prog.gsym:
                    mod = self.prog.gsym[name]
                    t, init, const, internal = mod.glob(name)
            key = (mod.path, name)
            if key not in self.globals:
                o = self.new_obj('@' + name, size_of(t))
                self.globals[key] = o
                if init is None:
                    if name not in ('stderr', 'stdout'):
                        raise Unsupported('external global %s' % name)
                    o.ro = True
                    return Ptr(o, off)
                self._init(o, 0, t, init, mod)
                o.ro = const
            return Ptr(self.globals[key], off)
        f = self.prog.find(name, mod)
        if f is not None or name in self.stubs:
            return FnPtr(name, mod)
        raise Unsupported('unknown global %s' % name)

    def _init(self, o, off, t, init, mod):
        if init[0] == 'g':
            o.cells[off] = (8, self.global_ptr(mod, init[1], init[2]))
        elif init[0] == 'agg':
            s = 0
            for i, e in enumerate(init[1]):
                if t[0] == 's':
                    self._init(o, off + field_off(t, i), t[1][i], e, mod)
                else:
                    self._init(o, off + i * size_of(t[2]), t[2], e, mod)
        else:
            v = init[1]
            if isinstance(v, tuple) and t[0] in ('a', 'v') and t[1] > 64 and all(x == 0 for x in v if isinstance(x, int)) and all(isinstance(x, int) for x in v):
                if off == 0:
                    o.zero = True
                    return
            self.store(Ptr(o, off), t, v)

    # -- calls ---------------------------------------------------------------------------------
    def call(self, name, args, mod=None):
        st = self.stubs.get(name)
        if st is not None:
            self.called[name] = self.called.get(name, 0) + 1
            return st(self, args)
        f = self.prog.find(name, mod)
        if f is None:
            b = BUILTINS.get(name)
            if b is not None:
                return b(self, args)
            for pre, b in BUILTIN_PREFIX:
                if name.startswith(pre):
                    return b(self, args)
            raise Unsupported('call of unknown function %s' % name)
        h = self.pre_hooks.get(name)
        if h is not None:
            h(self, args)
        self.called[name] = self.called.get(name, 0) + 1
        c = f.compiled
        if c is None:
            from . import compile as comp
            c = f.compiled = comp.compile_function(f)
        if len(args) != len(f.params):
            if len(args) < len(f.params):
                raise Unsupported('argument count of %s' % name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        try:
            r = c.run(self, args)
        finally:
            self.depth -= 1
        if f.linkage == 'external' and f.ret[0] == 'i' and f.ret[1] > 1 and not isinstance(r, int) and r is not UNDEF and isinstance(r, z3.ExprRef):
            r = self.concretize(r, f.ret[1])
        return r

    # -- integers ------------------------------------------------------------------------------
    def to_bv(self, v, n):
        if isinstance(v, int):
            return z3.BitVecVal(v, n)
        if isinstance(v, z3.BitVecRef):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if isinstance(v, fp.Val):
            return v.bits(self)
        if isinstance(v, fp.Cmp):
            b = v.to_bool(self)
            return self.to_bv(int(b) if isinstance(b, bool) else b, n)
        raise Unsupported('integer view of %r' % (v,))

    def fname(self, p='v'):
        self.fresh += 1
        return '%s!%d' % (p, self.fresh)


def _malloc(E, a):
    n = a[0]
    if not isinstance(n, int):
        n = E.concretize(n, 64)
    if n >> 63:
        raise Violation('memory', 'allocation of a negative size')
    return Ptr(E.new_obj('heap%d' % E.nobj, n, heap=True), 0)


def _calloc(E, a):
    p = _malloc(E, [a[0] * a[1]])
    p.o.zero = True
    return p


def _free(E, a):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return None
    if not isinstance(p, Ptr) or not p.o.heap or p.off != 0:
        raise Violation('memory', 'free of %r' % (p,))
    if p.o.freed:
        raise Violation('memory', 'double free of %s' % p.o.name)
    p.o.freed = True
    return None


def _memcpy(E, a):
    d, s, n = a[0], a[1], a[2]
    if not isinstance(n, int):
        n = E.concretize(n, 64)
    if n == 0:
        return d
    if n >> 63:
        raise Violation('memory', 'copy of a negative size')
    E.chk(s, n, 'read')
    E.chk(d, n, 'write')
    so, do = s.o, d.o
    if so.reads is not None:
        so.reads.add((s.off, n))
    out = []
    k = 0
    while k < n:
        c = so.cells.get(s.off + k)
        if c is None:
            # inside a larger cell?
            v = None
            if (s.off + k) % 4 == 0 and n - k >= 4:
                v = E._load_slow(so, s.off + k, 4, None)
            if v is not None and v is not UNDEF:
                out.append((k, 4, v))
                k += 4
            else:
                if so.zero:
                    out.append((k, 1, 0))
                k += 1
            continue
        w = c[0]
        if k + w > n:
            out.append((k, n - k, E.extract_bytes(c[1], w, 0, n - k)))
            k = n
        else:
            out.append((k, w, c[1]))
            k += w
    # clear the destination, then write
    for k in range(n):
        c = do.cells.get(d.off + k)
        if c is not None:
            if k + c[0] > n:
                E._split(do, d.off + k, c)
            del do.cells[d.off + k]
    if do.writes is not None:
        do.writes.add((d.off, n))
    for k, w, v in out:
        E.store1(Ptr(do, d.off + k), w, v)
    return d


def _memset(E, a):
    d, v, n = a[0], a[1], a[2]
    if not isinstance(n, int):
        n = E.concretize(n, 64)
    if not isinstance(v, int):
        raise Unsupported('memset value')
    v &= 255
    if n == 0:
        return d
    if n >> 63:
        raise Violation('memory', 'memset of a negative size')
    E.chk(d, n, 'write')
    k = 0
    while k < n:
        w = 8 if n - k >= 8 and (d.off + k) % 8 == 0 else (4 if n - k >= 4 and (d.off + k) % 4 == 0 else 1)
        E.store1(Ptr(d.o, d.off + k), w, int.from_bytes(bytes([v]) * w, 'little'))
        k += w
    return d


def _nop(E, a):
    return None


def _abs(E, a):
    v = a[0]
    if isinstance(v, int):
        return (-v) & 0xffffffff if v >> 31 else v
    return z3.If(v < 0, -v, v)


BUILTINS = {
    'malloc': _malloc, 'calloc': _calloc, 'free': _free, 'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset,
    'ldexp': lambda E, a: fp.ldexp(E, 64, a[0], a[1]),
    'ldexpf': lambda E, a: fp.ldexp(E, 32, a[0], a[1]),
    'scalbn': lambda E, a: fp.ldexp(E, 64, a[0], a[1]),
    'scalbnf': lambda E, a: fp.ldexp(E, 32, a[0], a[1]),
    'frexp': lambda E, a: fp.frexp(E, 64, a[0], a[1]),
    'frexpf': lambda E, a: fp.frexp(E, 32, a[0], a[1]),
    'sqrt': lambda E, a: fp.sqrt(E, 64, a[0]),
    'sqrtf': lambda E, a: fp.sqrt(E, 32, a[0]),
    'fabs': lambda E, a: fp.fabs(E, 64, a[0]),
    'fabsf': lambda E, a: fp.fabs(E, 32, a[0]),
    'abs': _abs,
    'printf': _nop, 'fprintf': _nop,
    'llvm.fabs.f64': lambda E, a: fp.fabs(E, 64, a[0]),
    'llvm.fabs.f32': lambda E, a: fp.fabs(E, 32, a[0]),
    'llvm.sqrt.f64': lambda E, a: fp.sqrt(E, 64, a[0]),
    'llvm.sqrt.f32': lambda E, a: fp.sqrt(E, 32, a[0]),
    'llvm.is.fpclass.f64': lambda E, a: fp.fpclass(E, 64, a[0], a[1]),
    'llvm.is.fpclass.f32': lambda E, a: fp.fpclass(E, 32, a[0], a[1]),
    'llvm.x86.avx.max.pd.256': lambda E, a: tuple(fp.x86max(E, 64, x, y) for x, y in zip(*a)),
    'llvm.x86.avx.max.ps.256': lambda E, a: tuple(fp.x86max(E, 32, x, y) for x, y in zip(*a)),
    'llvm.x86.sse2.max.pd': lambda E, a: tuple(fp.x86max(E, 64, x, y) for x, y in zip(*a)),
    'llvm.x86.sse.max.ps': lambda E, a: tuple(fp.x86max(E, 32, x, y) for x, y in zip(*a)),
    'llvm.x86.sse.ldmxcsr': lambda E, a: fp.ldmxcsr(E, a),
    'llvm.x86.sse.stmxcsr': lambda E, a: E.store1(a[0], 4, 0x1f80),
}
BUILTIN_PREFIX = [
    ('llvm.lifetime', _nop), ('llvm.dbg', _nop), ('llvm.assume', _nop), ('llvm.experimental.noalias', _nop),
    ('llvm.memcpy', _memcpy), ('llvm.memmove', _memcpy), ('llvm.memset', _memset),
    ('llvm.stacksave', lambda E, a: 0), ('llvm.stackrestore', _nop),
    ('llvm.abs.i32', _abs),
    ('llvm.smax.i32', lambda E, a: _minmax(E, a, 1)), ('llvm.smin.i32', lambda E, a: _minmax(E, a, 0)),
    ('llvm.va_', _nop),
]


def _minmax(E, a, mx):
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        X, Y = sx(x, 32), sx(y, 32)
        return (max(X, Y) if mx else min(X, Y)) & 0xffffffff
    x, y = E.to_bv(x, 32), E.to_bv(y, 32)
    return z3.If(x > y, x, y) if mx else z3.If(x < y, x, y)
