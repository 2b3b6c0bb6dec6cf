#!/bin/bash
# confirmseed.sh ID: confirms a planted bug in a scratch copy: applies, builds, tests pass, demo 0 without and non-zero with.
id=$1; s=/verif/seeded/$id; w=/tmp/seedw/$id
rm -rf "/tmp/seedw/$id"; mkdir -p $w; cp -a /repo $w/repo; cp -a $s $w/seed; rm -f $w/seed/patch.diff $w/seed/meta.json
cd $w/repo && git checkout -q -- . || exit 9
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build ./... || { echo "$id: base build"; exit 1; }
timeout 300 sh $w/seed/demo.sh >$w/clean.log 2>&1 || { echo "$id: demo fails on clean"; tail -20 $w/clean.log; exit 1; }
git apply $s/patch.diff || { echo "$id: patch"; exit 1; }
go build ./... || { echo "$id: patched build"; exit 1; }
go test -vet=off -count=1 -p 1 -timeout 2m ./... >$w/test.log 2>&1 || { echo "$id: tests fail"; grep -v '^ok\|no test files' $w/test.log | head -30; exit 1; }
timeout 300 sh $w/seed/demo.sh >$w/bug.log 2>&1 && { echo "$id: demo passes with the bug"; exit 1; }
tail -3 $w/bug.log | cut -c1-200
echo "$id: CONFIRMED"
rm -rf "/tmp/seedw/$id"
