#!/usr/bin/env python3
"""Development aid: every behaviour-preserving edit of mutants.py is run against all claimed checks, which must stay quiet."""
import os, subprocess, sys, shutil, json, concurrent.futures as cf, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
AN = os.environ.get('AN', '/tmp/an')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = os.environ.get('IDS', '').split() or sorted(json.load(open(here + '/checks.json')))
lo, hi = (int(sys.argv[1]), int(sys.argv[2])) if len(sys.argv) > 2 else (0, len(M))
base = tempfile.mkdtemp(prefix='cross', dir='/tmp')
def run(i, m):
    f, old, new = m[1:4]
    d = f'{base}/{i}'
    subprocess.run(f'mkdir -p {d} && cd /repo && tar cf - --exclude .git . | tar xf - -C {d}', shell=True, check=True)
    for (f1, o, n) in ([(f, old, new)] if isinstance(f, str) else f):
        p = f'{d}/{f1}'; s = open(p).read()
        if o not in s:
            shutil.rmtree(d); return i, m, 'STALE'
        open(p, 'w').write(s.replace(o, n, 1))
    env = dict(os.environ, VERIF_REPO=d, VERIF_ROOT=f'{base}/r{i}')
    r = subprocess.run([AN] + ids, env=env, capture_output=True, text=True)
    shutil.rmtree(d)
    bad = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    keys = [l.split()[0] for l in r.stdout.splitlines() if l and l[0].islower() and ':' in l.split()[0]]
    return i, m, 'quiet' if r.returncode == 0 else f'ALARM {sorted(set(bad))} {keys[:6]}'
L = [(i, m) for i, m in enumerate(M) if m[0].startswith('=') and lo <= i < hi]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for i, m, st in ex.map(lambda a: run(*a), L):
        print(i, m[0], st, flush=True)
shutil.rmtree(base)
