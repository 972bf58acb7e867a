"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from props import P
M = {'version': 1, 'setup_cmd': './setup', 'checks': [], 'not_applicable': []}
for k in sorted(P):
    p = P[k]
    if p.get('not_applicable'):
        M['not_applicable'].append({'property': k, 'reason': p['not_applicable']})
        continue
    M['checks'].append({'property': k, 'quick_cmd': './check %s' % k, 'thorough_cmd': './check %s thorough' % k, 'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note'], **({'theorems': p['theorems']} if p.get('theorems') else {})})
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
