#!/usr/bin/env python3
"""newseed.py SPEC.py: creates /verif/seeded/<id>. SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Go test source)."""
import sys, os, json, subprocess, runpy, shutil
sp = runpy.run_path(sys.argv[1])
d = '/verif/seeded/' + sp['ID']
os.makedirs(d, exist_ok=True)
w = '/tmp/newseed.%d' % os.getpid()
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
for f, o, n in sp['EDITS']:
    p = w + '/' + f
    s = open(p).read()
    if s.count(o) != 1:
        shutil.rmtree(w)
        sys.exit('%s: %d matches of %r' % (f, s.count(o), o))
    open(p, 'w').write(s.replace(o, n))
    subprocess.call(['gofmt', '-l', p])
open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', w, 'diff']))
shutil.rmtree(w)
pkg = sp.get('PKG', 'pkg/db')
race = sp.get('RACE', '')
open(d + '/demo.sh', 'w').write('''#!/bin/sh
# Runs demo_test.go (beside this file) inside the repository in the current directory; needs no network.
here=$(cd "$(dirname "$0")" && pwd)
PATH="/opt/veriftools/go1.27.3/bin:$PATH"; export PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/zzdemo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$t/overlay.json"
TMPDIR="$t" go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run TestDemo ./%s
''' % (pkg, pkg))
open(d + '/demo_test.go', 'w').write(sp['DEMO'])
json.dump({'property': sp['PROP'], 'needs': sp['NEEDS'], 'what_it_breaks': sp['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
sys.exit(subprocess.call(['/verif/tools/confirmseed.sh', sp['ID']]))
