#!/usr/bin/env python3
"""Writes MANIFEST.json from props.PROPS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Generated-input search over the real headers in several compilers, standards, optimisation levels and sanitizers; nothing is proved. '
        'Within the small scope of the enumerated tests every case is run; beyond it the search samples. Trusts the per-bit reference model in harness/, the compilers and the sanitizer runtimes.')
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': P.get('technique', 'property-based testing against a per-bit reference model, with small-scope exhaustive generation and (thorough) coverage-guided fuzzing'),
                       'level': 'exploration', 'level_note': P.get('level_note', NOTE)})
na = [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check rebuilds its harness from /repo\'s working tree. Replay a violation with: python3 check.py replay <path>.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
