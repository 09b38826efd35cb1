#!/bin/bash
# run the check of each planted bug (or the ones named) with the bug applied to /repo; prints caught or missed
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); o=$(python3 check.py $p quick 2>&1); r=$?; e=$(date +%s)
  git -C /repo checkout -- .
  if [ $r = 1 ] && echo "$o" | grep -q "^VIOLATION property=$p "; then echo "$id $p caught $((e-s))s: $(echo "$o" | grep -B3 -m1 'rule:' | tr '\n' ' ' | cut -c1-220)"; else echo "$id $p MISSED exit=$r $((e-s))s $(echo "$o" | tail -3 | tr '\n' ' ' | cut -c1-200)"; fi
done
