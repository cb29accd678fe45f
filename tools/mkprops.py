#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, TECH, NOTE  # noqa

M = 'pyopenapi/migration/'
V = M + 'versions/'
props, checks, na = [], [], []
for p in PROPS:
    have = os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py'))
    if not have and p['id'] not in NOT_APPLICABLE:
        print('skipped', p['id'], 'no check yet')
        continue
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
    files = [f.replace('@', V).replace('%', M) for f in p['files']]
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['forall']},
        'why_tests_cant': p['why'],
        'anchors': {'files': files, 'mechanism': [
            {'name': n, 'where': w.replace('@', V).replace('%', M)}
            for n, w in p['mech']]},
    })
    if p['id'] in NOT_APPLICABLE:
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
    else:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py ' + p['id'],
            'thorough_cmd': 'python3 check.py ' + p['id'],
            'technique': p.get('tech', TECH),
            'level': 'other',
            'level_note': p.get('note', '') + NOTE,
        })
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast"',
               'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(props), 'properties', len(checks), 'checks')
