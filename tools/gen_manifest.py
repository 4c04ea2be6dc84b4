#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    be = ' + '.join((['Verus'] if c.get('verus') else []) + (['Kani'] if c.get('kani') or c.get('kunits') else []))
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification of the real functions (%s)' % be,
                   'level': c.get('level', 'proof'), 'level_note': c['note']})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: private functions are extracted mechanically from the source on every run.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'n/a')
