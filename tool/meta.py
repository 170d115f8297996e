#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 tool/meta.py` after editing props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tool'))
from props import PROPS, NA

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'observe_at': p.get('observe', []), 'hook_needed': None}}
        if p.get('state'):
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
        continue
    checks.append({'property': p['id'], 'quick_cmd': './run ' + p['id'], 'thorough_cmd': 'env VERIF_TIER=thorough ./run ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
na = [{'property': p['id'], 'reason': p['reason']} for p in NA]
na += [{'property': p['id'], 'reason': 'check not built yet'} for p in PROPS if not os.path.exists(os.path.join(V, 'checks', p['id'] + '.py'))]
m = {'version': 1, 'setup_cmd': './run --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
