#!/bin/bash
# tools/tryseeds.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo it.
cd "$(dirname "$0")/.." || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(timeout 900 ./run.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then echo "$id: caught by $p ($(grep -o 'key=[^ ]*' <<<"$out" | sort | uniq -c | sort -rn | head -2 | awk '{print $2}' | tr '\n' ' '))"
  else echo "$id: MISSED by $p (rc=$rc) $(tail -1 <<<"$out")"; fi
done
