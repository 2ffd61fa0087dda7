#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    c = 'python3 check.py %s' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=c + ' --tier quick', thorough_cmd=c + ' --tier thorough', technique=p['tech'], level='other', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); from sa import cxx; cxx.extract()"', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')
