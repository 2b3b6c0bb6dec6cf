#!/bin/bash
# tryseed.sh ID...: runs the check of each planted bug's property against a scratch copy of /repo with the bug applied.
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedtry/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  rm -rf "/tmp/seedtry/$id"; mkdir -p /tmp/seedtry; cp -a /repo $w
  git -C $w apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=$(date +%s); out=$(cd /verif && VERIF_REPO=$w VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/gosym -property ${PROP:-$p} ${GOSYM_ARGS:--first} 2>&1); rc=$?
  echo "$id ($p): rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | grep -B1 '^VIOLATION' | head -1 | cut -c1-160)"
  [ -n "$V" ] && echo "$out" | cut -c1-600
  rm -rf "/tmp/seedtry/$id"
done
