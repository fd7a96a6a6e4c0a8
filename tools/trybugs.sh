#!/bin/sh
# trybugs.sh [ID...]: applies each planted change to /repo, runs the quick check of its property, undoes it
cd "$(dirname "$0")/.." || exit 1
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 checks/check $p ${TIER:-} >/tmp/trybugs.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$rc $(grep -c '^VIOLATION property='$p /tmp/trybugs.out) violations; $(grep -v '^VIOLATION' /tmp/trybugs.out | head -1 | cut -c1-150)"
done
