"""Scratch build of the tree under test: generated sources, LLVM IR per configuration, and real shared objects.

Nothing is written in /repo.  Results are cached in a scratch directory whose name is a hash of the tree's contents,
so that a changed tree is always rebuilt."""
import hashlib, os, shutil, subprocess, sys, tempfile, time, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('PYTHON_COG') or next((p for p in ('/opt/venv/bin/python', shutil.which('python3') or '') if p and os.path.exists(p)), 'python3')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
NJ = int(os.environ.get('VERIF_JOBS', '8'))

VEC = {
    'avx': ['-march=x86-64-v3'],
    'sse': ['-march=x86-64-v3', '-DreproBLAS_no__AVX__'],
    'sisd': ['-march=x86-64-v3', '-DreproBLAS_no__AVX__', '-DreproBLAS_no__SSE2__'],
}
SKIP = {'.git', 'build', '__pycache__'}


MPISTUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mpistub')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd) if isinstance(cmd, list) else cmd, r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout.decode(errors='replace')


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP)
        for f in sorted(files):
            if f.endswith(('.pyc',)) or f == 'getter.json':
                continue
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
    for me in [os.path.abspath(__file__)] + sorted(os.path.join(MPISTUB, x) for x in os.listdir(MPISTUB)):
        with open(me, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def cache_root():
    return os.environ.get('VERIF_SCRATCH', '/var/tmp/verif-scratch')


class Tree:
    """a generated copy of the tree, optionally with different tuning arguments"""

    def __init__(self, tuning=None, tag=''):
        self.tuning = tuning or {}
        extra = repr(sorted(self.tuning.items()))
        self.hash = tree_hash(extra)
        self.dir = os.path.join(cache_root(), self.hash)
        os.makedirs(cache_root(), exist_ok=True)
        self.lock = os.path.join(cache_root(), self.hash + '.lock')
        with open(self.lock, 'w') as lf:
            fcntl.flock(lf, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(self.dir, '.generated')):
                self._generate()

    def _generate(self):
        d = self.dir
        if os.path.exists(d):
            shutil.rmtree(d)
        # drop old scratch trees
        old = sorted((os.path.getmtime(os.path.join(cache_root(), x)), x) for x in os.listdir(cache_root()) if len(x) == 20)
        for _, x in old[:-12]:
            shutil.rmtree(os.path.join(cache_root(), x), ignore_errors=True)
        tmp = d
        os.makedirs(tmp)
        for e in os.listdir(REPO):
            if e in ('.git', 'build'):
                continue
            s, t = os.path.join(REPO, e), os.path.join(tmp, e)
            if os.path.isdir(s):
                shutil.copytree(s, t, ignore=shutil.ignore_patterns('__pycache__', '.git'))
            else:
                shutil.copy2(s, t)
        args, params = 'src/tuned_args.json', 'src/params.json'
        if self.tuning:
            import json
            with open(os.path.join(tmp, args)) as f:
                a = json.load(f)
            a.update(self.tuning)
            args = 'src/verif_args.json'
            # block sizes below what params.json admits for this machine's cache
            with open(os.path.join(tmp, params)) as f:
                q = json.load(f)
            for k, v in self.tuning.items():
                if k in q['parameters'] and 'minimum' in q['parameters'][k] and v < q['parameters'][k]['minimum']:
                    q['parameters'][k]['minimum'] = v
            params = 'src/verif_params.json'
            with open(os.path.join(tmp, params), 'w') as f:
                json.dump(q, f)
            with open(os.path.join(tmp, args), 'w') as f:
                json.dump(a, f)
        self.env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        self.env.pop('MAKEFLAGS', None)
        inc = ['-Iinclude', '-Iscripts', '-Isrc', '-Isrc/gen', '-I.']

        def cog(src, out):
            r = subprocess.run([PY, '-W', 'ignore', '-m', 'scripts.cogapp', '-I', 'src/gen', '-I', os.path.dirname(src), '-I', '.', '-I', 'include', '-I', 'scripts',
                                '-D', 'args=' + args, '-D', 'params=' + params, '-D', 'mode=generate', src],
                               cwd=tmp, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                raise BuildError('cog %s: %s' % (src, r.stderr.decode(errors='replace')[-2000:]))
            with open(os.path.join(tmp, out), 'wb') as f:
                f.write(r.stdout)
        # getter, as in build.sh
        gj = os.path.join(tmp, 'scripts', 'getter.json')
        if os.path.exists(gj):
            os.remove(gj)
        cog('scripts/getter.ccog', 'scripts/getter.gen.c')
        sh(['gcc', '-std=c99', '-march=x86-64-v3', '-Iinclude', '-Isrc/binnedBLAS', '-I.', '-Isrc', '-Iscripts', 'scripts/getter.gen.c', '-o', 'scripts/getter.exe'], cwd=tmp)
        with open(gj, 'w') as f:
            f.write(sh([os.path.join(tmp, 'scripts/getter.exe')], cwd=tmp))
        todo = []
        for sub in ('binned', 'binnedBLAS', 'reproBLAS', 'binnedMPI', 'common'):
            dd = os.path.join(tmp, 'src', sub)
            if os.path.isdir(dd):
                for f in sorted(os.listdir(dd)):
                    if f.endswith('.ccog'):
                        todo.append('src/%s/%s' % (sub, f))
        with ThreadPoolExecutor(NJ) as ex:
            list(ex.map(lambda s: cog(s, s[:-5] + '.c'), todo))
        with open(os.path.join(tmp, '.generated'), 'w') as f:
            f.write('ok')

    def sources(self, mpi=False):
        out = []
        for sub in ('common', 'binned', 'binnedBLAS', 'reproBLAS') + (('binnedMPI',) if mpi else ()):
            dd = os.path.join(self.dir, 'src', sub)
            if os.path.isdir(dd):
                for f in sorted(os.listdir(dd)):
                    if f.endswith('.c'):
                        out.append('src/%s/%s' % (sub, f))
        if mpi:
            out.append(os.path.join(MPISTUB, 'mpistub.c'))
        return out

    CINC = ['-Iinclude', '-Isrc/binnedBLAS', '-Isrc/binned', '-I.', '-Isrc']

    def ir(self, vec='avx', only=None, mpi=False):
        """compile sources to IR; only: predicate on the source path. Returns list of .ll paths"""
        od = os.path.join(self.dir, 'ir-' + vec + ('-mpi' if mpi else ''))
        os.makedirs(od, exist_ok=True)
        extra = ['-I' + MPISTUB] if mpi else []
        jobs = []
        outs = []
        for s in self.sources(mpi):
            if only is not None and not only(s):
                continue
            o = os.path.join(od, s.replace('/', '_')[:-2] + '.ll')
            outs.append(o)
            if not os.path.exists(o):
                jobs.append((s, o))

        def one(j):
            s, o = j
            t = o + '.%d.tmp' % os.getpid()
            sh([CLANG, '-std=c99', '-ffp-contract=off', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-w']
               + VEC[vec] + self.CINC + extra + [s, '-o', t + '0'], cwd=self.dir)
            sh([OPT, '-S', '-passes=always-inline,function(sroa,early-cse,simplifycfg,dce)', t + '0', '-o', t], cwd=self.dir)
            os.remove(t + '0')
            os.rename(t, o)
        if jobs:
            with ThreadPoolExecutor(NJ) as ex:
                list(ex.map(one, jobs))
        return outs

    def so(self, vec='avx', opt=None, mpi=False):
        """the real code, compiled by gcc with the project's release flags (-O1 with other tuning arguments), as a shared object"""
        opt = opt or ('-O1' if len(self.tuning) > 100 else '-O3')
        od = os.path.join(self.dir, 'so-%s%s%s' % (vec, opt, '-mpi' if mpi else ''))
        lib = os.path.join(od, 'lib.so')
        if os.path.exists(lib):
            return lib
        with open(self.lock + '.so', 'w') as lf:
            fcntl.flock(lf, fcntl.LOCK_EX)
            if os.path.exists(lib):
                return lib
            os.makedirs(od, exist_ok=True)
            srcs = self.sources(mpi)
            extra = ['-I' + MPISTUB] if mpi else []
            objs = []

            def one(s):
                o = os.path.join(od, s.replace('/', '_')[:-2] + '.o')
                sh(['gcc', opt, '-std=c99', '-pedantic', '-w', '-fPIC'] + VEC[vec] + self.CINC + extra + ['-c', s, '-o', o], cwd=self.dir)
                return o
            with ThreadPoolExecutor(NJ) as ex:
                objs = list(ex.map(one, srcs))
            sh(['gcc', '-shared', '-o', lib + '.tmp'] + objs + ['-lm'], cwd=self.dir)
            os.rename(lib + '.tmp', lib)
        return lib


if __name__ == '__main__':
    t = time.time()
    T = Tree()
    print('generate', time.time() - t)
    for v in sys.argv[1:] or ['avx']:
        t = time.time()
        n = len(T.ir(v))
        print('ir', v, n, time.time() - t)
        t = time.time()
        T.so(v)
        print('so', v, time.time() - t)
    print(T.dir)
