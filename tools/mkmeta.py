#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS, NOT_APPLICABLE  # noqa: E402

PROPS.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'], 'anchors': {'files': [x for x in p['files'] if os.path.exists('/repo/' + x)],
                                                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
na = {x['property'] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    assert os.path.exists('%s/checks/%s.py' % (V, p['id'].lower())), p['id']
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
           'notes': 'No hooks in /repo: the checks build /repo unmodified (ASAN) into /verif/build and link a harness of their own against the common and main libraries.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
for p in PROPS:
    for x in p['files']:
        if not os.path.exists('/repo/' + x):
            print('missing anchor', p['id'], x)
