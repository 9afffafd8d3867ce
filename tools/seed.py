#!/usr/bin/env python3
"""Make and confirm one planted bug: seed.py SPEC.py
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST (Go test source) or DEMO (shell)."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
full = '--full' in sys.argv
W = '/tmp/sw/repo'
if not os.path.isdir(W):
    subprocess.check_call(['cp', '-a', '/repo', W])
subprocess.check_call(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD'])
subprocess.check_call(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'])
d = '/verif/seeded/' + spec['ID']
os.makedirs(d, exist_ok=True)
for f, a, b in spec['EDITS']:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, 'w').write(s.replace(a, b))
patch = subprocess.check_output(['git', '-C', W, 'diff'])
open(d + '/patch.diff', 'wb').write(patch)
if 'TEST' in spec:
    open(d + '/demo_test.go.txt', 'w').write(spec['TEST'])
demo = spec.get('DEMO') or '''#!/bin/bash
# Runs one extra in-package test through an overlay; run with cwd at the repository's root.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/seed_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$t/overlay.json" -run 'TestSeedDemo' ./%s
''' % (spec['PKG'], spec['PKG'])
open(d + '/demo.sh', 'w').write(demo)
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
def sh(cmd, cwd):
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-700:]
ok = sh('go build ./...', W)
print('build', ok[0], ok[1] if ok[0] else '')
bad = sh('bash %s/demo.sh' % d, W)
print('demo with patch', bad[0], bad[1][-300:])
if full:
    print('tests', sh('go test -vet=off ./... 2>&1 | grep -v "no test files" | grep -v ^ok', W)[1])
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
good = sh('bash %s/demo.sh' % d, W)
print('demo without', good[0], good[1] if good[0] else '')
# does the property's check see it?
ov = {}
os.makedirs('/tmp/sw/ov', exist_ok=True)
for f, a, b in spec['EDITS']:
    q = '/tmp/sw/ov/' + f.replace('/', '_')
    s = ov.get('/repo/' + f) and open(ov['/repo/' + f]).read() or open('/repo/' + f).read()
    open(q, 'w').write(s.replace(a, b))
    ov['/repo/' + f] = q
json.dump(ov, open('/tmp/sw/ov.json', 'w'))
r = sh('AN_OVERLAY=/tmp/sw/ov.json VERIF_DIR=/tmp/tt /tmp/an all 2>/dev/null | grep -v "violations=0" | cut -c1-260 | head -30', '/tmp')
print(r[1])
