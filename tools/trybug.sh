#!/bin/bash
# trybug.sh <seed id>...: applies the planted bug to /repo, runs its property's quick check, undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$here/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t=$SECONDS; out=$(VERIF_TIER=quick "$here/run.sh" "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $((SECONDS-t))s $(echo "$out" | grep -m1 VIOLATION)"
  if [ $rc != 1 ]; then echo "$out" | tail -5; fi
done
