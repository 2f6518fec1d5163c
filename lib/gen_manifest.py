#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
C = json.load(open(os.path.join(V, 'lib', 'claims.json')))
checks, na = [], []
for i in ids:
    if i in C['claims'] and os.path.exists(os.path.join(V, 'checks', i + '.py')):
        c = C['claims'][i]
        checks.append(dict(property=i, quick_cmd='python3-vt checks/%s.py' % i, thorough_cmd='VERIF_TIER=thorough python3-vt checks/%s.py' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c['level'], level_note=c['note']))
    else: na.append(dict(property=i, reason=C.get('na', {}).get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt lib/setup.py', checks=checks, not_applicable=na, notes=C['notes'])
m['hooks'] = dict(guard='NRG_VERIF_HOOKS', enable='no hooks are needed: the checks build the unmodified sources of /repo', source_commits=[])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
