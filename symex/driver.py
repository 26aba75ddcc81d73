"""Runs the obligations of one property, confirms counterexamples on the real code, writes the evidence."""
import json, os, sys, time, traceback, importlib, multiprocessing, resource, signal
from concurrent.futures import ProcessPoolExecutor, as_completed, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool
from . import build, runner

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known():
    """(property, site) -> description, for entries that are findings (not 'fixed:')"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=R19 site=<text> :: <what fails>
                head, _, what = l[9:].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1))
                out.append((d['property'], d['site'], what))
    return out


def memlimit():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_one(args):
    task, limit, seed = args
    t0 = time.time()
    try:
        r = task.execute(limit, seed)
    except MemoryError:
        r = dict(name=task.name(), status='unsupported', msg='memory limit')
    except Exception:
        r = dict(name=task.name(), status='error', msg=traceback.format_exc()[-1500:])
    r.setdefault('wall', round(time.time() - t0, 3))
    return r


def confirm_one(args):
    task, res, budget = args
    try:
        return task.confirm(res, budget)
    except Exception:
        return dict(error=traceback.format_exc()[-1500:])


def main(argv):
    if argv and argv[0] == '--setup':
        return setup()
    if argv and argv[0] == '--replay':
        return replay_file(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return check(prop, tier, seed)
    except build.BuildError as e:
        print('ERROR: the tree does not build: %s' % e)
        return 2


def setup():
    import shutil
    ok = True
    for t in (build.CLANG, build.OPT, 'gcc'):
        if not shutil.which(t):
            print('missing tool', t)
            ok = False
    T = build.Tree()
    T.ir('avx')
    T.so('avx')
    print('setup ok', T.dir)
    return 0 if ok else 1


def check(prop, tier, seed):
    from . import checks
    t0 = time.time()
    tasks = checks.tasks(prop, tier, seed)
    limit = 120 if tier == 'quick' else 900
    total = 700 if tier == 'quick' else 6 * 3600
    # build everything the tasks need before the workers start
    need = set()
    for t in tasks:
        need |= t.needs()
    for tuning, vec, mpi in sorted(need):
        tree = runner.tree_for(json.loads(tuning))
        if vec:
            runner.program(tree, vec, mpi)
    for tuning, vec, mpi in sorted({x for t in tasks for x in t.needs_so()}):
        runner.tree_for(json.loads(tuning)).so(vec, mpi=mpi)
    tb = time.time() - t0
    tasks.sort(key=lambda t: -t.weight)
    results = []
    pool = ProcessPoolExecutor(build.NJ, mp_context=multiprocessing.get_context('fork'), initializer=memlimit)
    futs = {pool.submit(run_one, (t, t.limit or limit, seed)): t for t in tasks}
    pending = set(futs)
    bad = []
    confirmed = []
    conf = {}
    t1 = time.time()
    try:
        while pending or conf:
            done, _ = wait(list(pending) + list(conf), timeout=5, return_when=FIRST_COMPLETED)
            for f in done:
                if f in conf:
                    r = conf.pop(f)
                    try:
                        r['replay'] = f.result()
                    except Exception as e:
                        r['replay'] = dict(error=repr(e))
                    continue
                pending.discard(f)
                task = futs[f]
                try:
                    r = f.result()
                except BrokenProcessPool:
                    raise
                except Exception as e:
                    r = dict(name=task.name(), status='error', msg=repr(e))
                r['task'] = task
                results.append(r)
                if r['status'] != 'held':
                    if 'index' in r:
                        task = r['task'] = task.jobs[r['index']]
                    bad.append(r)
                    if len(bad) <= 60:
                        conf[pool.submit(confirm_one, (task, {k: v for k, v in r.items() if k != 'task'}, 60 if len(bad) < 9 else 20))] = r
            hit = [r for r in bad if r.get('replay') and not r['replay'].get('error')]
            if hit and (time.time() - t1 > 240 or len(hit) >= 3) and not any_known(prop):
                break
            if time.time() - t0 > total:
                break
    finally:
        for f in list(pending) + list(conf):
            f.cancel()
        pool.shutdown(wait=False, cancel_futures=True)
        for p in list((pool._processes or {}).values()):
            try:
                p.kill()
            except Exception:
                pass
    return report(prop, tier, seed, tasks, results, bad, t0, tb)


def any_known(prop):
    return any(k[0] == prop for k in known())


def report(prop, tier, seed, tasks, results, bad, t0, tb):
    from . import checks
    kn = [k for k in known() if k[0] == prop]
    violations, unresolved, seen = [], [], {}
    for r in bad:
        rep = r.get('replay')
        if rep and not rep.get('error'):
            site = r['task'].site()
            m = next((k for k in kn if k[1] == site), None)
            if m:
                seen[m] = r
            else:
                violations.append(r)
        else:
            unresolved.append(r)
    for m in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, m[2]))
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for i, r in enumerate(violations[:5]):
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, task=r['task'].name(), key=r['task'].key(), status=r['status'], kind=r.get('kind'), message=r.get('msg'), replay=r['replay']), f, indent=1, default=str)
        print('  %s: %s' % (r['name'], str(r.get('msg'))[:400]))
        print('  on the real library: %s' % (str(r['replay'].get('outcome'))[:400],))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    held = [r for r in results if r['status'] == 'held']
    missing = len(tasks) - len(results)
    vals = sum(r.get('validated', 0) for r in results)
    badval = [r for r in results if r.get('validation')]
    funcs, lem, stubs = set(), set(), set()
    for r in results:
        funcs |= set(r.get('functions', ()))
        lem |= set(map(str, r.get('lemmas', ())))
        stubs |= set(r.get('stubs', ()))
    cov = dict(
        states=sum(r.get('paths', 0) for r in results),
        transitions=sum(r.get('steps', 0) for r in results),
        traces_validated_against_impl=vals,
        samples=[dict(obligation=r['name'], status=r['status'], paths=r.get('paths'), queries=r.get('queries'), assertions=r.get('checks'), solver_s=r.get('solver_s')) for r in held[:6]],
        obligations=sum(len(getattr(t, 'jobs', (1,))) for t in tasks), discharged=sum(r.get('sub', 1) - (0 if r['status'] == 'held' else 1) for r in results), assertions=sum(r.get('checks', 0) for r in results),
        solver_queries=sum(r.get('queries', 0) for r in results),
        solver_seconds=round(sum(r.get('solver_s', 0) for r in results), 2),
        functions_encoded=sorted(funcs), lemmas_used=sorted(lem), stubs=sorted(stubs),
        bounds=checks.bounds(prop, tier),
        explanation='states = symbolic paths completed, each standing for every input that follows it; transitions = IR instructions executed symbolically; traces_validated = concrete runs on which interpreter and compiled library were compared',
        build_s=round(tb, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=checks.assumptions(prop), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d violated, %d unresolved, %d units not run; %d paths, %d queries, %.1f s solver, %d validated; %.1f s (build %.1f s)' % (
        prop, tier, cov['obligations'], cov['discharged'], len(violations), len(unresolved), missing if not violations else 0, cov['states'], cov['solver_queries'], cov['solver_seconds'], vals, time.time() - t0, tb))
    if os.environ.get('VERIF_SLOW'):
        for r in sorted(results, key=lambda r: -r.get('wall', 0))[:8]:
            print('  slow: %.1f s %s %s paths %s queries' % (r.get('wall', 0), r['name'][:300], r.get('paths'), r.get('queries')))
    if violations:
        return 1
    rc = 0
    for r in unresolved[:12]:
        print('UNRESOLVED %s: %s %s %s' % (r['name'], r['status'], str(r.get('msg'))[-700:], str(r.get('replay'))[-700:] if r.get('replay') else ''))
        rc = 2
    for r in badval[:6]:
        print('TRANSLATOR MISMATCH %s: %s' % (r['name'], r['validation']))
        rc = 2
    if missing:
        print('%d obligations were not decided in time' % missing)
        rc = 2
    return rc


def replay_file(path):
    d = json.load(open(path))
    from . import checks
    for b in checks.tasks(d['property'], d['tier'], int(os.environ.get('VERIF_SEED', '1'))):
        for t in getattr(b, 'jobs', (b,)):
            if t.key() == d['key']:
                r = t.replay(d['replay'])
                print(r)
                return 0 if r and r[0] == 'ok' else 1
    print('no such obligation')
    return 2
