#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/claims.json (property -> technique, level, note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(V + '/tools/claims.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    if p in claims:
        c = claims[p]
        checks.append({'property': p, 'quick_cmd': 'python3 vc.py check %s quick' % p, 'thorough_cmd': 'python3 vc.py check %s thorough' % p,
                       'technique': c['technique'], 'level': c.get('level', 'model_checking'), 'level_note': c['note']})
    else: na.append({'property': p, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 vc.py setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
