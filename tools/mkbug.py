#!/usr/bin/env python3
"""mkbug.py ID PROPERTY SPEC.json : writes seeded/ID/{patch.diff,meta.json} from {file:[[old,new],...]}; the demo is written by hand."""
import sys, os, json, difflib
def make(bid, prop, edits, needs, breaks, demo, py=True):
    d = os.environ.get('MKSEED','/verif/seeded')+'/' + bid; os.makedirs(d, exist_ok=True); out = ''
    for f, es in edits.items():
        s = open(os.environ.get('MKREPO','/repo')+'/' + f).read(); t = s
        for o, n in es:
            assert t.count(o) == 1, (bid, f, t.count(o), o)
            t = t.replace(o, n)
        a = s.splitlines(True); b = t.splitlines(True)
        out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if py:
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo after the build\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD/_build/lib" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /usr/bin/python3 "$d/demo.py" > /dev/null\n')
        open(d + '/demo.py', 'w').write(demo)
    else:
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build; the program goes to a scratch directory
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
I="-Isrc/common -Isrc/geometry -Isrc/FGraph -Isrc/PCRegistration -I/usr/include/eigen3"
g++ -std=gnu++14 -O1 -DNDEBUG -w $I "$d/demo.cpp" -o "$t/demo" -L_build/lib -Wl,-rpath,"$PWD/_build/lib" -lPCRegistration -lFGraph -lSE3 -lcommon || exit 3
timeout 120 "$t/demo" > /dev/null
''')
        open(d + '/demo.cpp', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
