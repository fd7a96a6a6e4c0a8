#!/bin/sh
# catch.sh OUT [ID...]: each planted change in a scratch copy of /repo, and what the check of its property says (a table row each)
V=$(cd "$(dirname "$0")/.." && pwd)
out=$1; shift
[ $# = 0 ] && set -- $(ls "$V/seeded")
for id in "$@"; do
 w=/tmp/catch-work; rm -rf /tmp/catch-work; mkdir /tmp/catch-work
 git -C /repo archive HEAD | tar x -C "$w"
 (cd "$w" && git init -q . && git apply "$V/seeded/$id/patch.diff") || { echo "| $id | | patch does not apply | |" >> "$out"; rm -rf /tmp/catch-work; continue; }
 p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
 cp -r "$V/harness" "$V/spec" "$V/checks" "$V/known_findings.txt" "$w/"
 (cd "$w" && NDM_REPO=$w checks/check "$p" > "$w/out" 2>&1; echo "| $id | $p | $([ $? = 1 ] && grep -q "^VIOLATION property=$p" "$w/out" && echo caught || echo missed) | $(grep -v '^VIOLATION\|^\.\.\.' "$w/out" | head -1 | cut -c1-140 | tr '|' '/') |" >> "$out")
 rm -rf /tmp/catch-work
done
