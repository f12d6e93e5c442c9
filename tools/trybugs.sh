#!/bin/bash
# Development tool: apply each planted bug to /repo, run the check of its property, undo it. usage: trybugs.sh [ID...]
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$(git -C /repo status --short)" ] && { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  t0=$(date +%s)
  out=$(bash run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -c '^VIOLATION') $([ -n "$V" ] && echo "$out" | head -20)"
done
