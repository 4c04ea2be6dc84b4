#!/usr/bin/env python3
"""records the loop headers the invariants were written against (run on the unchanged tree only)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
import check
from props import PROPS
out = {}
for u in sorted({u for p in PROPS.values() for u in p.get('verus', [])}): out.update(check.current_headers(u))
json.dump(out, open(os.path.join(V, 'verus', 'headers.json'), 'w'), indent=1, sort_keys=True)
print(len(out), 'functions')
