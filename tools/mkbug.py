"""Writes seeded/<id>/ from a description: edits applied to a scratch copy of /repo's sources, and a demonstration in C."""
import json, os, shutil, subprocess, sys, tempfile
SH = '''#!/bin/bash
# exit 0: the library behaves; 1: it does not
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
L=$r/build/release/Linux-x86_64/src
%s -O1 -w -I"$r/include" -I"$r" -I"$r/src" "$d/demo.c" -o "$t/demo" %s"$L/reproBLAS/obj/libreproblas.a" "$L/binnedBLAS/obj/libbinnedblas.a" "$L/binned/obj/libbinned.a" -lm || exit 3
"$t/demo"
'''


def make(id, prop, needs, breaks, edits, demo, mpi=False, sh=None, head='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include <float.h>\n#include <binned.h>\n#include <binnedBLAS.h>\n#include <reproBLAS.h>\n'):
    d = '/verif/seeded/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix='mkbug')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'])
    try:
        for f, old, new in edits:
            p = os.path.join(t, 'w', f)
            s = open(p).read()
            n = s.count(old)
            assert n >= 1, (id, f, 'text not found')
            assert n == 1, (id, f, 'text found %d times' % n)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', t + '/w', 'diff']))
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
        shutil.rmtree(t)
    open(d + '/demo.c', 'w').write(head + demo)
    open(d + '/demo.sh', 'w').write(sh or SH % ('gcc', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
