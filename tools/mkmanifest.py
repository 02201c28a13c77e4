#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and spec/claims.json (property -> level, technique, note)"""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(H, 'spec', 'claims.json')))
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    c = dict(claims['default'])
    c.update(claims.get(p, {}))
    checks.append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
                   'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [], 'notes': claims.get('notes', '')},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
