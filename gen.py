#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in props/*.py (kept in step)."""
import json, glob, os, runpy
here = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
for f in sorted(glob.glob(here + '/props/*.py')):
    g = runpy.run_path(f)
    P += g.get('PROPS', [])
    NA += g.get('NA', [])
with open(here + '/properties.jsonl', 'w') as o:
    for p in P + NA:
        o.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': './check.sh ' + p['id'],
        'thorough_cmd': './check.sh ' + p['id'] + ' --thorough',
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    } for p in P],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
    'notes': 'No hooks: models are extracted from the sources on every run, private items are reached by including the source files.',
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
ids = [p['id'] for p in P + NA]
assert len(ids) == len(set(ids)), 'duplicate ids'
for p in P + NA:
    assert len(p['title']) <= 80, p['title']
print(len(P), 'claimed', len(NA), 'not applicable')
