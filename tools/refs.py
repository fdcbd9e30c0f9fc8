#!/usr/bin/env python3
"""Applies each behaviour-preserving edit of reflist.py to a scratch copy, builds, tests and analyses it.
   usage: refs.py [-c CHECK,CHECK...] [ID...]   (default: the codec sweep)"""
import os, subprocess, sys, tempfile, shutil
R = []
def ref(id, edits, checks=None): R.append((id, edits, checks))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reflist.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reflist2.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reflist3.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reflist4.py')).read())
an = os.environ.get('AN', '/verif/bin/analyzer')
args = sys.argv[1:]; cks = None
if args and args[0] == '-c': cks = args[1].split(','); args = args[2:]
for id, edits, checks in R:
    if args and id not in args: continue
    w = tempfile.mkdtemp(prefix='ref'); w2 = w + '/r'
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', VERIF_REPO=w2, VERIF_OUT=w)
    try:
        subprocess.run(['cp', '-a', '/repo', w2], check=True)
        ok = True
        for f, old, new in edits:
            p = w2 + '/' + f; s = open(p).read()
            if s.count(old) != 1: print(id, 'EDIT MATCHES', s.count(old), f, old[:200]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        r = subprocess.run(['go', 'test', '-count=1', './...'], cwd=w2, env=env, capture_output=True, text=True)
        if r.returncode: print(id, 'BUILD/TESTS FAIL', r.stdout[-800:], r.stderr[-800:]); continue
        runs = [['check', c] for c in (cks or checks or [])] or [['sweep']]
        for c in runs:
            try: r = subprocess.run([an] + c, cwd=w2, env=env, capture_output=True, text=True, timeout=int(os.environ.get('T','850')))
            except subprocess.TimeoutExpired: print(id, c, 'TIMEOUT'); continue
            out = r.stdout.replace(w2, '')
            bad = [l for l in out.split('\n') if l]
            print(id, ' '.join(c), 'rc=%d' % r.returncode, '' if (c[0]=='sweep' and 'sweep: 0 violations 0 und' in out) or (c[0]=='check' and r.returncode==0) else '\n   '+'\n   '.join(l[:int(os.environ.get('W','300'))] for l in bad[:int(os.environ.get('L','4'))]))
            sys.stdout.flush()
    finally:
        shutil.rmtree(w)
