#!/usr/bin/env python3
"""plant.py SPEC.py: turns a list of bugs into /verif/seeded/<id>/ and confirms each in a scratch copy.

SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], test (Go test body or whole file), pkg, imports)]
"""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
DEMO = '''#!/bin/bash
# runs demo_test.go as an in-package test of ./%(pkg)s
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
GOFLAGS=-mod=mod go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
base = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    pkg = b.get('pkg', '.')
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        w = tmp + '/repo'
        sh('git clone -q ' + os.environ.get('SRC','/repo') + ' ' + w, tmp)
        body = b['test']
        if not body.lstrip().startswith('package'):
            name = {'.': 'syslog5424', 'sdata': 'sdata', 'sdata/timequality': 'timequality'}[pkg]
            imps = ''.join('\t"%s"\n' % i for i in ['testing'] + b.get('imports', []))
            body = 'package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n%s' % (name, imps, body, b.get('extra', ''))
        open(d + '/demo_test.go', 'w').write(body)
        sh('gofmt -w ' + d + '/demo_test.go', w)
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg})
        os.chmod(d + '/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % d, w)
        for f, old, new in b['edits']:
            s = open(w + '/' + f).read()
            assert s.count(old) >= 1, print(b["id"], f, old) or b["id"]
            if s.count(old) > 1: print(b['id'], 'note: several matches, first replaced')
            open(w + '/' + f, 'w').write(s.replace(old, new, 1))
        diff = subprocess.run('git diff', shell=True, cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        bld = sh('go build ./... && go vet -composites=false . >/dev/null; go build ./...', w)
        r1 = sh('bash %s/demo.sh' % d, w)
        tst = [sh('timeout 120 go test -count=1 ./...', w) for _ in range(2)]
        ok = r0.returncode == 0 and r1.returncode != 0 and bld.returncode == 0 and all(t.returncode == 0 for t in tst)
        print(b['id'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'build', bld.returncode, 'patched', r1.returncode, 'tests', [t.returncode for t in tst])
        if r0.returncode: print(r0.stdout[-1500:])
        if r1.returncode == 0: print(r1.stdout[-500:])
        elif 'build failed' in r1.stdout: print(r1.stdout[-1500:])
        for t in tst:
            if t.returncode: print(t.stdout[-1500:])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if not ok and not os.environ.get('KEEP'): shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
