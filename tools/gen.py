#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (only claims modules that exist)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOTES
claimed = [p for p in PROPS if os.path.exists(os.path.join(V, 'mc', p['id'].lower() + '.py'))]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in claimed:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        q = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        f.write(json.dumps(q) + '\n')
M = dict(version=1, setup_cmd='bash /opt/vp/build.sh && bash /verif/setup.sh',
         checks=[dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
                      thorough_cmd='./check %s thorough' % p['id'],
                      technique=p['tech'], level='model_checking', level_note=p['note']) for p in claimed],
         not_applicable=[], notes=NOTES)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
print(len(claimed), 'claimed')
