#!/usr/bin/env python3
"""obligations of the last run that were neither proved nor refuted: tools/agree.py [PID...]"""
import json, glob, sys
for f in sorted(glob.glob('/verif/evidence/*.json')):
    d = json.load(open(f))
    if sys.argv[1:] and d['property'] not in sys.argv[1:]: continue
    def walk(x):
        if isinstance(x, dict):
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            if len(x) >= 2 and 'agree' in x[:3]: print(d['property'], [str(y)[:110] for y in x])
            else:
                for v in x: walk(v)
    walk(d)
