#!/usr/bin/env python3
"""costs.py [EVIDENCE_DIR]...: notes what runs covered, for DESIGN.md."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(HERE, 'costs.json')
costs = json.load(open(path)) if os.path.exists(path) else {}
for d in sys.argv[1:]:
    for f in sorted(glob.glob(os.path.join(d, 'C*.json'))):
        e = json.load(open(f))
        c = e['coverage']
        if c['tasks'] < 3:
            continue
        costs.setdefault(e['property'], {})[e['tier']] = (
            '%d states, %d transitions in %d s%s' % (
                c['states'], c['transitions'], round(e['wall_s']),
                '' if c['exhaustive'] else ' (time limit reached)'))
with open(path, 'w') as f:
    json.dump(costs, f, indent=1, sort_keys=True)
