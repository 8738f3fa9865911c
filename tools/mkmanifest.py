#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in CHECKS:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'No check has been built yet.')}); continue
    c = CHECKS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                   'technique': c.get('technique', 'property-based testing: exhaustive sweeps and random generation against an oracle, with shrinking'),
                   'level': c.get('level', 'exploration'), 'level_note': c.get('note', 'Explores the generated cases described by the rule in the evidence file; nothing beyond them is shown. Trusts the frozen reference data and model in /verif (ref, data).')})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks compile the unmodified sources and interpose on malloc from outside.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
