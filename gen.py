#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py (run by hand, not by a check)."""
import json, os
from checks import CHECKS
from props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'observe_at': p['observe'], 'hook_needed': None}}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
for p in PROPS:
    if p['id'] in CHECKS:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                            'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check not built yet')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
