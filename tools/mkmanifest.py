#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import props
from vlib.technique import TECH
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS and i in TECH:
        t, note = TECH[i]
        checks.append({'property': i,
                       'quick_cmd': 'python3 run.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': t, 'level': 'exploration',
                       'level_note': note})
    else:
        na.append({'property': i,
                   'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': na,
     'notes': 'All checks regenerate nsimd from /repo (egg/hatch.py on a '
              'temporary copy), build wrappers for the seven x86/CPU '
              'extensions and run generated cases; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
