#!/usr/bin/env python3
"""Applies each bug of mutlist.py to a scratch copy and reports what the codec sweep says.  usage: muts.py [ID...]"""
import os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
M = []
def m2(id, checks, *e): M.append((id, e, checks.split()))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutlist.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutlist2.py')).read())
an = os.environ.get('AN', '/verif/bin/analyzer'); W=int(os.environ.get('W','160'))
def one(x):
    id, edits = x[:2]
    w = tempfile.mkdtemp(prefix='mut'); w2 = w + '/r'
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', VERIF_REPO=w2, VERIF_OUT=w)
    try:
        subprocess.run(['cp', '-a', '/repo', w2], check=True)
        for f, old, new in edits:
            p = w2 + '/' + f; s = open(p).read()
            if s.count(old) != 1: return '%s EDIT MATCHES %d' % (id, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['go', 'test', '-count=1', './...'], cwd=w2, env=env, capture_output=True, text=True)
        note = ' (tests fail)' if r.returncode else ''
        if len(x) > 2:
            o = ''
            for c in x[2]:
                try: r = subprocess.run([an, 'check', c], cwd=w2, env=env, capture_output=True, text=True, timeout=int(os.environ.get('T','850')))
                except subprocess.TimeoutExpired: o += '\n    TIMEOUT'; continue
                o += ' %s rc=%d%s' % (c, r.returncode, '' if r.returncode else ' MISSED ' + r.stdout[-W:])
                if W > 160: o += r.stdout[:W]
            return id + note + o
        try: r = subprocess.run([an, 'sweep'], cwd=w2, env=env, capture_output=True, text=True, timeout=int(os.environ.get('T','850')))
        except subprocess.TimeoutExpired: return id + ' TIMEOUT'
        bad = [l for l in r.stdout.split('\n') if l]
        v = [l for l in bad if l.startswith('VIOL')]; u = [l for l in bad if l.startswith('UND')]
        qs = sorted({l.split()[1] for l in v}); 
        return '%s%s: %d violations %s, %d undecided%s' % (id, note, len(v), ' '.join(qs), len(u), ''.join('\n    '+l[:W] for l in (v[:1] or u[:2] or bad[:1])))
    finally: shutil.rmtree(w)
todo = [x for x in M if len(sys.argv) < 2 or x[0] in sys.argv[1:]]
for x in todo:
    print(one(x)); sys.stdout.flush()
