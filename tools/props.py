#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing tools/props_data.py."""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props_data import PROPS, NOT_APPLICABLE, NOTES

TECH = 'static analysis: '
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    c = {'property': p['id'], 'quick_cmd': 'python3 check.py --property %s' % p['id'],
         'thorough_cmd': 'python3 check.py --property %s --tier thorough' % p['id'],
         'technique': TECH + p['technique'], 'level': 'other', 'level_note': p['level_note']}
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE], 'notes': NOTES}
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(R, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('valid', len(PROPS), 'claimed', len(NOT_APPLICABLE), 'n/a')
except ImportError:
    print('written (run with python3-vt to validate)')
