#!/bin/bash
# run every claimed check (or the ones named) on the current tree; prints exit code and time
cd "$(dirname "$0")/.."
L=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
python3 check.py "$(echo $L | cut -d' ' -f1)" quick >/dev/null 2>&1
one() { s=$(date +%s); o=$(python3 check.py $1 quick 2>&1); r=$?; e=$(date +%s); echo "$1 exit=$r $((e-s))s $(echo "$o" | grep -E '^(P[0-9]+ |VIOL|UNDEC|KNOWN)' | tr '\n' ';' | cut -c1-300)"; }
export -f one
printf '%s\n' $L | xargs -P 8 -I{} bash -c 'one {}' | sort
