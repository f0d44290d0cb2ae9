#!/usr/bin/env python3
"""mut.py FILE [-j N] [-k substr]: run checks on edited scratch copies of /repo. FILE defines MUTS: list of
(name, check ids, [(file, old, new), ...]); prints the verdict of every check. Nothing in /repo is touched."""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.environ.get('VF_ROOT', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ns = {}; exec(open(sys.argv[1]).read(), ns)
j = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 4
k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
def one(m):
    name, ids, eds = m
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        for s in ('src', 'mrobpy'): shutil.copytree(os.path.join('/repo', s), os.path.join(d, s))
        for f, a, b in eds:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(a) != 1: return '%s: %d matches in %s' % (name, t.count(a), f)
            open(p, 'w').write(t.replace(a, b))
        r = []
        for i in ids.split():
            q = subprocess.run([sys.executable, 'check.py', i], cwd=ROOT, env=dict(os.environ, VF_REPO=d, VF_EVID=d), capture_output=True, text=True)
            r.append('%s=%d %s' % (i, q.returncode, ' | '.join((q.stdout + q.stderr).strip().splitlines()[:2 if q.returncode else 0])[:400]))
        return name + ': ' + '; '.join(r)
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, [m for m in ns['MUTS'] if k in m[0]]): print(r, flush=True)
