#!/bin/bash
# undo each repair (or the ones named) in /repo's working tree and run the check that must report it again
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
python3 -c "
import json
for l in json.load(open('known_findings.json'))['fixed']:
    w=l.split(); print(w[2], w[1].split('=')[1])" | while read h p; do
  [ -z "$1" ] || [[ " $* " == *" $h "* ]] || [[ " $* " == *" $p "* ]] || continue
  git -C /repo show $h | git -C /repo apply -R - || { echo "$h does not revert"; continue; }
  o=$(python3 check.py $p quick 2>&1); r=$?
  git -C /repo checkout -- .
  echo "$h $p exit=$r $(echo "$o" | grep -B3 -m1 'rule:' | tr '\n' ' ' | cut -c1-240)"
done
