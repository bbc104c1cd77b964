#!/usr/bin/env python3
"""Development aid: applies small edits to a scratch copy of /repo and shows which checks report them.
usage: mutate.py [ID...]   each entry of mutants.py: (check, file, old, new[, count]); a check prefixed with '=' must stay quiet."""
import os, subprocess, sys, shutil, concurrent.futures as cf, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
AN = os.environ.get('AN', '/tmp/an')
want = set(sys.argv[1:])
base = tempfile.mkdtemp(prefix='mut', dir='/tmp')
def run(i, m):
    chk, f, old, new = m[:4]
    quiet = chk.startswith('='); chk = chk.lstrip('=')
    d = f'{base}/{i}'
    subprocess.run(['rsync', '-a', '--exclude', '.git', '/repo/', d], check=True) if shutil.which('rsync') else subprocess.run(f'mkdir -p {d} && cd /repo && tar cf - --exclude .git . | tar xf - -C {d}', shell=True, check=True)
    edits = [(f, old, new)] if isinstance(f, str) else f
    for (f1, o, n) in edits:
        p = f'{d}/{f1}'; s = open(p).read()
        if o not in s:
            return (i, m, 'STALE', '')
        open(p, 'w').write(s.replace(o, n, 1))
    b = subprocess.run(['go', 'vet', '-vettool=/bin/true', './...'], cwd=d, capture_output=True, text=True) if False else subprocess.run(['go', 'build', './...'], cwd=d, capture_output=True, text=True)
    if b.returncode:
        return (i, m, 'NOBUILD', b.stderr[:300])
    env = dict(os.environ, VERIF_REPO=d, VERIF_ROOT=f'{base}/r{i}')
    r = subprocess.run([AN, chk], env=env, capture_output=True, text=True)
    shutil.rmtree(d)
    keys = [l.split()[0] for l in r.stdout.splitlines() if l and not l.startswith((' ', 'VIOLATION')) and ':' in l][1:]
    if quiet:
        return (i, m, 'ok-quiet' if r.returncode == 0 else 'FALSE-ALARM', ' '.join(keys[:3]))
    return (i, m, 'caught' if r.returncode == 1 else f'MISSED({r.returncode})', ' '.join(keys[:2]))
L = [(i, m) for i, m in enumerate(M) if not want or m[0].lstrip('=') in want]
with cf.ThreadPoolExecutor(4) as ex:
    for i, m, st, k in ex.map(lambda a: run(*a), L):
        print(f'{i:3} {m[0]:5} {st:12} {m[1] if isinstance(m[1],str) else m[1][0][0]}: {(m[2] if isinstance(m[2],str) else m[1][0][1]).strip().splitlines()[0][:50]!r} {k}')
shutil.rmtree(base)
