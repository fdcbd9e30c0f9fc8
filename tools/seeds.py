#!/usr/bin/env python3
"""Regenerates /verif/seeded: each planted bug is (id, property, needs, breaks, edits, package, demo test).
   usage: seeds.py [ID...]   builds, tests and demonstrates each bug in a scratch copy before keeping it."""
import json, os, subprocess, sys, tempfile, shutil, re
S = []
def seed(id, prop, needs, breaks, edits, pkg, test):
    S.append((id, prop, needs, breaks, edits, pkg, test))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seedlist.py')).read())
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go.txt\\"}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 60s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
want = set(sys.argv[1:])
bad = 0
for id, prop, needs, breaks, edits, pkg, test in S:
    if want and id not in want: continue
    w = tempfile.mkdtemp(prefix='seed'); w2 = w + '/r'
    subprocess.run(['cp', '-a', '/repo', w2], check=True)
    try:
        out = '/verif/seeded/' + id
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.sh', 'w').write(DEMO % {'pkg': pkg})
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo_test.go.txt', 'w').write(test)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + '/meta.json', 'w'), indent=1)
        r = run(['bash', out + '/demo.sh'], w2)
        if r.returncode != 0: print(id, 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:], r.stderr[-500:]); bad += 1; continue
        for f, old, new in edits:
            p = w2 + '/' + f; s = open(p).read()
            if s.count(old) != 1: print(id, 'EDIT MATCHES', s.count(old), f, old); bad += 1; break
            open(p, 'w').write(s.replace(old, new))
        else:
            diff = run(['git', 'diff'], w2).stdout
            open(out + '/patch.diff', 'w').write(diff)
            r = run(['go', 'build', './...'], w2)
            if r.returncode: print(id, 'BUILD', r.stderr[:800]); bad += 1; continue
            r = run(['go', 'test', '-count=1', './...'], w2)
            if r.returncode: print(id, 'TESTS FAIL', r.stdout[-1500:]); bad += 1; continue
            r = run(['bash', out + '/demo.sh'], w2)
            if r.returncode == 0: print(id, 'DEMO PASSES WITH PATCH'); bad += 1; continue
            print(id, prop, 'ok')
    finally:
        shutil.rmtree(w)
sys.exit(bad)
