"""Runs harnesses: proof in the symbolic world, validation, and replay of counterexamples on the real library."""
import json, os, sys, time, traceback, signal, random, ctypes, faulthandler
from concurrent.futures import ProcessPoolExecutor, as_completed
from . import build, engine, fp, stubs as stubmod
from .engine import Engine, Program, Violation, Unsupported, PathLimit, Infeasible
from .worlds import SymX, RealX, Sampler, Mismatch

_prog = {}
_lib = {}


class Timeout(Exception):
    pass


def program(tree, vec, mpi=False):
    k = (tree.hash, vec, mpi)
    if k not in _prog:
        _prog[k] = Program(tree.ir(vec, mpi=mpi))
    return _prog[k]


def tree_for(tuning):
    k = json.dumps(tuning, sort_keys=True)
    if k not in _lib:
        _lib[k] = build.Tree(tuning or None)
    return _lib[k]


class Job:
    """one obligation: a harness with its parameters in one configuration"""

    def __init__(self, h, vec='avx', tuning=None, stubs='std', inexact='uf', weight=1, validate=1, limit=None, mpi=False, **params):
        self.h, self.vec, self.tuning, self.stubs, self.inexact, self.params = h, vec, tuning, stubs, inexact, params
        self.weight, self.validate, self.limit, self.mpi = weight, validate, limit, mpi

    def name(self):
        return '%s(%s)%s' % (self.h.__name__, ', '.join('%s=%s' % (k, v) for k, v in self.params.items()), '' if self.vec == 'avx' else ' [%s]' % self.vec) + (' tuned' if self.tuning else '')

    def key(self):
        return '%s|%s|%s|%s' % (self.h.__name__, sorted((k, repr(v)) for k, v in self.params.items()), self.vec, sorted((self.tuning or {}).items()))

    def site(self):
        f = getattr(self.h, 'site', None)
        return f(**self.params) if f else self.h.__name__

    def needs(self):
        return {(json.dumps(self.tuning, sort_keys=True), self.vec, self.mpi)}

    def needs_so(self):
        return {(json.dumps(self.tuning, sort_keys=True), self.vec, self.mpi)} if self.validate else set()

    def execute(self, limit, seed):
        res = prove(self, limit)
        if res['status'] == 'held' and self.validate:
            n = 0
            for k in range(self.validate):
                v = validate(self, seed * 1000 + k)
                if v is not None:
                    res['validation'] = str(v)[:800]
                    break
                n += 1
            res['validated'] = n
        return res

    def confirm(self, res, budget):
        return replay(self, res, 400, budget)

    def replay(self, d):
        if d['outcome'][1] == 'leak':
            r = replay_leak(self, 60)
            return r['outcome'] if r else ('ok',)
        return in_child(lambda: real_once(self, d['seed'], d.get('hints'), d.get('gap', 0x5a), d.get('guard', 'after'), d.get('mode')), 60)

    def desc(self):
        return dict(harness='%s.%s' % (self.h.__module__, self.h.__name__), vec=self.vec, tuning=self.tuning, mpi=self.mpi, params=self.params)


def _alarm(sig, frm):
    raise Timeout()


def prove(job, limit):
    """symbolic execution; returns a dict"""
    t0 = time.time()
    tree = tree_for(job.tuning)
    prog = program(tree, job.vec, job.mpi)
    E = Engine(prog, job.inexact)
    if isinstance(job.stubs, str):
        E.stubs = stubmod.SETS[job.stubs]()
    elif callable(job.stubs):
        E.stubs = job.stubs()
    elif job.stubs:
        E.stubs = dict(job.stubs)
    out = dict(name=job.name(), status='held', paths=0, checks=0)
    nch = [0]
    wit = [0]
    lem = set()

    def run(E):
        X = SymX(E)
        try:
            job.h(X, **job.params)
            X.finish()
        finally:
            lem.update(E.fpst.lemma)
        nch[0] += X.nchecks
        if wit[0] == 0:
            # vacuity guard: the path condition of the first completed path is satisfiable
            if not E.check():
                raise Infeasible()
            wit[0] = 1
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        E.explore(run)
        if wit[0] == 0:
            out['status'] = 'vacuous'
    except Violation as v:
        out['status'] = 'violation'
        out['kind'], out['msg'], out['hints'] = v.kind, str(v)[:1500], v.info
        if out['hints'] is None:
            try:
                m = E.model()
                out['hints'] = {a.key[1]: m.eval(b, model_completion=True).as_long() for a, b in E.fpst.bitvar.items() if a.kind == 'x'} if m is not None else None
            except Exception:
                pass
    except Timeout:
        out['status'], out['msg'] = 'timeout', 'time limit of %d s' % limit
    except (Unsupported, PathLimit) as e:
        out['status'], out['msg'] = 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:600])
        if getattr(e, 'info', None):
            out['hints'] = e.info
    except Exception as e:
        out['status'], out['msg'] = 'error', traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    out.update(sub=1, paths=E.paths, steps=E.steps, checks=nch[0], queries=E.queries, solver_s=round(E.solver_s, 3), wall=round(time.time() - t0, 3),
               functions=sorted(set(E.called)), lemmas=sorted(lem), stubs=sorted(E.stubs))
    return out


def real_once(job, seed, hints=None, gap=0x5a, guard='after', mode=None):
    tree = tree_for(job.tuning)
    lib = ctypes.CDLL(tree.so(job.vec, mpi=job.mpi))
    smp = Sampler(seed, hints, mode)
    X = RealX(lib, smp, gap, guard)
    try:
        job.h(X, **job.params)
        X.finish()
    except Infeasible:
        return [], smp.used         # outside the stated limits
    return X.trace, smp.used


def conc_once(job, seed):
    tree = tree_for(job.tuning)
    E = Engine(program(tree, job.vec, job.mpi))
    out = []

    def run(E):
        X = SymX(E, Sampler(seed))
        job.h(X, **job.params)
        out.append(X.trace)
    E.explore(run)
    return out[0] if out else []


def in_child(f, timeout=60):
    """run f() in a forked child; ('ok', value) | ('exc', kind, text) | ('signal', n) | ('timeout',)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            faulthandler.disable()
            try:
                v = f()
                res = ('ok', v)
            except Mismatch as e:
                res = ('mismatch', e.label, str(e))
            except Violation as e:
                res = ('mismatch', e.kind, str(e))
            except BaseException as e:
                res = ('exc', type(e).__name__, traceback.format_exc()[-1500:])
            with os.fdopen(w, 'w') as fh:
                json.dump(res, fh, default=str)
        finally:
            os._exit(0)
    os.close(w)
    t0 = time.time()
    data = b''
    import select
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(r)
            return ('timeout',)
        rs, _, _ = select.select([r], [], [], left)
        if rs:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ('signal', os.WTERMSIG(st))
    if not data:
        return ('signal', 0)
    return tuple(json.loads(data))


def validate(job, seed):
    """translator validation: the interpreter and the real library agree on concrete inputs"""
    a = in_child(lambda: conc_once(job, seed), 120)
    b = in_child(lambda: real_once(job, seed)[0], 60)
    if a[0] != 'ok' or b[0] != 'ok':
        return (a, b)
    if norm_trace(a[1]) != norm_trace(b[1]):
        return (('differ', diff(a[1], b[1])), b)
    return None


def norm_trace(t):
    out = []
    for x in t:
        if x and x[0] == 'ret' and not isinstance(x[2], (int, type(None))):
            out.append([x[0], x[1], 0])
        elif x and x[0] == 'ret' and isinstance(x[2], int) and any(fp.isnan_b(w, x[2]) for w in (32, 64)[x[2] >> 32 != 0:][:1]):
            out.append([x[0], x[1], 'nan'])
        else:
            out.append(list(x))
    return out


def diff(a, b):
    for x, y in zip(norm_trace(a), norm_trace(b)):
        if x != y:
            return '%s / %s' % (x, y)
    return 'lengths'


def replay(job, res, seeds, budget=60):
    """try to reproduce a violation on the real library. returns dict or None"""
    t0 = time.time()
    kind = res.get('kind')
    tries = []
    if res.get('hints'):
        hs = res['hints'] if isinstance(res['hints'], list) else [res['hints']]
        tries += [(s, h, m) for h in hs for s in range(20 if len(hs) == 1 else 4) for m in (None, 4)]
        R = random.Random(1)
        tries += [(s, {k: v for k, v in hs[s % len(hs)].items() if R.random() < .8}, None) for s in range(20)]
    tries += [(s, None, None if s >= 27 else s % 9) for s in range(seeds)]
    if kind == 'leak':
        return replay_leak(job, budget)
    for s, h, m in tries:
        if time.time() - t0 > budget:
            break
        for gap, guard in ((0x5a, 'after'), (0x7f, 'before')) if kind in ('memory', 'uninitialised') or s < 3 else ((0x5a, 'after'),):
            r = in_child(lambda: real_once(job, s, h, gap, guard, m), 30)
            if r[0] in ('mismatch', 'signal', 'timeout'):
                return dict(seed=s, hints=h, mode=m, gap=gap, guard=guard, outcome=r)
            if r[0] == 'exc':
                return dict(error=r)
        if kind == 'uninitialised':
            def perturbed(k):
                def f():
                    ctypes.CDLL(None).mallopt(-6, k)
                    return real_once(job, s, h, k, 'after', m)[0]
                return f
            a, b = in_child(perturbed(0x11), 30), in_child(perturbed(0xee), 30)
            if a[0] == b[0] == 'ok' and a[1] != b[1]:
                return dict(seed=s, hints=h, mode=m, outcome=('mismatch', 'uninitialised', 'results depend on the contents of fresh memory: %s' % diff(a[1], b[1])))
    return None


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def replay_leak(job, budget):
    def f():
        tree = tree_for(job.tuning)
        lib = ctypes.CDLL(tree.so(job.vec, mpi=job.mpi))
        C = ctypes.CDLL(None)
        C.mallinfo2.restype = MallInfo
        grow = []

        class X2(RealX):
            def call(self, fn, ret, *args):
                b = C.mallinfo2()
                r = RealX.call(self, fn, ret, *args)
                a = C.mallinfo2()
                grow.append((fn, (a.uordblks + a.hblkhd) - (b.uordblks + b.hblkhd), ret))
                return r
        best = {}
        for s in range(12):
            X = X2(lib, Sampler(s))
            try:
                job.h(X, **job.params)
            except Mismatch:
                pass
            if s >= 2:
                for fn, g, ret in grow:
                    if ret != 'p':
                        best.setdefault(fn, []).append(g)
            del grow[:]
        return {k: v for k, v in best.items()}
    r = in_child(f, budget)
    if r[0] == 'ok':
        for fn, gs in r[1].items():
            gs = sorted(gs)
            # allocations of the interpreter's own are rare and small; a leak shows on most calls
            if sum(1 for g in gs if g >= 16) * 2 > len(gs):
                return dict(outcome=('mismatch', 'leak', '%s leaves %d bytes allocated per call' % (fn, gs[len(gs) // 2])))
    elif r[0] == 'exc':
        return dict(error=r)
    return None


class Bundle:
    """several obligations decided in one worker"""

    def __init__(self, jobs, weight=None):
        self.jobs = jobs
        self.weight = weight if weight is not None else sum(j.weight for j in jobs)
        self.limit = None
        self.bad = None

    def name(self):
        return '%s ... (%d)' % (self.jobs[0].name(), len(self.jobs))

    def key(self):
        return self.jobs[0].key()

    def site(self):
        return self.jobs[0].site()

    def needs(self):
        return set().union(*[j.needs() for j in self.jobs])

    def needs_so(self):
        return set().union(*[j.needs_so() for j in self.jobs])

    def execute(self, limit, seed):
        """a result per obligation, merged; stops at the first that does not hold"""
        out = None
        t0 = time.time()
        for i, j in enumerate(self.jobs):
            r = j.execute(limit, seed)
            if out is None:
                out = dict(name=self.name(), status='held', sub=0)
            for k in ('paths', 'checks', 'queries', 'solver_s', 'steps', 'validated'):
                out[k] = out.get(k, 0) + r.get(k, 0)
            for k in ('functions', 'lemmas', 'stubs'):
                out[k] = sorted(set(out.get(k, ())) | set(r.get(k, ())))
            if r.get('validation'):
                out['validation'] = j.name() + ': ' + r['validation']
            out['sub'] += 1
            if r['status'] != 'held':
                out.update({k: r.get(k) for k in ('status', 'msg', 'kind', 'hints')}, name=j.name(), index=i)
                break
        out['wall'] = round(time.time() - t0, 3)
        return out


def bundle(jobs, size=None, total=2.0):
    """group obligations into work units; one in each unit is also validated on the real library"""
    out, cur, w = [], [], 0.0
    for j in jobs:
        cur.append(j)
        w += j.weight
        if (size and len(cur) >= size) or (not size and w >= total):
            out.append(cur)
            cur, w = [], 0.0
    if cur:
        out.append(cur)
    for b in out:
        for j in b[1:]:
            j.validate = 0
    return [Bundle(b) for b in out]
