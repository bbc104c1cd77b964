#!/usr/bin/env python3
# seed.py SPEC.py : makes /verif/seeded/<id> from a spec and confirms it in a scratch copy of /repo
#   spec: ID, PROP, NEEDS, BREAKS, PKG, EDITS=[(file,old,new)], TEST (go source of an in-package test, function TestDemo)
import re, sys, os, subprocess, json, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
sid = spec['ID']
d = '/verif/seeded/' + sid
s = '/tmp/w/seed/copy'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
shutil.rmtree(s, ignore_errors=True)
sh('cp -a /repo ' + s)
for f, a, b in spec['EDITS']:
    p = s + '/' + f
    t = open(p).read()
    if t.count(a) != 1: sys.exit('%s: %d matches of %r' % (f, t.count(a), a))
    # changed lines must be the original repository's
    i = t.find(a); l0 = t[:i].count('\n')
    bl = sh('git -C /repo blame -s cb7ed75..HEAD -- ' + f).stdout.splitlines()
    import difflib
    A = (t).split('\n'); B = t.replace(a, b).split('\n')
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, A, B, autojunk=False).get_opcodes():
        if tag in ('replace', 'delete'):
            for k in range(i1, i2):
                if A[k].strip() and not bl[k].startswith('^'): print('NOT ORIGINAL LINE', f, k + 1, A[k])
    open(p, 'w').write(t.replace(a, b))
os.makedirs(d, exist_ok=True)
diff = sh('git -C %s diff' % s).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo_test.go.txt', 'w').write(spec['TEST'])
pkg = spec['PKG']
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go.txt" "$t/demo_test.go" || exit 2
echo "{\\"Replace\\": {\\"$repo/%s/zz_demo_test.go\\": \\"$t/demo_test.go\\"}}" > "$t/ov.json"
export TMPDIR="$t"
go test -overlay "$t/ov.json" -count=1 -vet=off -timeout 200s -run '^TestDemo$' ./%s
''' % (pkg, pkg))
os.chmod(d + '/demo.sh', 0o755)
r0 = sh('cd /repo && timeout 280 bash %s/demo.sh' % d)
r1 = sh('cd %s && timeout 280 bash %s/demo.sh' % (s, d))
print('clean rc', r0.returncode, '| patched rc', r1.returncode)
if r0.returncode: print(r0.stdout[-1500:], r0.stderr[-1500:])
print('patched out:', [l for l in (r1.stdout+r1.stderr).split('\n') if l.strip()][:6])
# stable tests with the patch
base = json.load(open('/opt/vp/BASELINE.json'))
st = base.get('stable') or base.get('tests') or base.get('passed')
t = sh('. /opt/vp/env.sh; cd %s && go build ./... && go test -count=1 -json . ./hash/... ./memdb/... ./wal/...' % s)
okn = set()
for l in t.stdout.splitlines():
    try: j = json.loads(l)
    except Exception: continue
    if j.get('Action') == 'pass' and j.get('Test'): okn.add(j['Test'])
print('tests passed', len(okn), 'stable missing:', [x for x in st if re.split(r'[:. /]', x)[-1] not in okn][:4])
env = dict(os.environ, VERIF_ROOT='/tmp/w/vr', VERIF_REPO=s)
for p in sys.argv[2:] or [spec['PROP']]:
    r = subprocess.run(['/tmp/an', p], capture_output=True, text=True, env=env)
    print(p, r.returncode, [l for l in r.stdout.strip().split('\n') if not l.startswith(' ')][:3])
