#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P, NA
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        assert len(p['title']) <= 80, p['id']
        o = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'bash mc/build_all.sh', 'checks': [], 'not_applicable': []}
for p in P:
    m['checks'].append({
        'property': p['id'], 'quick_cmd': f"./check {p['id']} quick",
        'thorough_cmd': f"./check {p['id']} thorough",
        'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
for p in NA:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(P), 'checks')
