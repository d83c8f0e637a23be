#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta/props.py (one source for both)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402
V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'],
                           thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
                           technique=p['technique'], level='other', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=na,
               notes='No hooks are needed in /repo: every check reads the source through clang and LLVM IR.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
t = open(os.path.join(HERE, 'design.tmpl')).read()
t = t.replace('@NA@', '\n'.join('* **%s** %s — %s' % (p['id'], p['title'], p['na']) for p in PROPS if p.get('na')))
rows = ['| seed | caught by | needs | breaks |', '|---|---|---|---|']
sd = os.path.join(V, 'seeded')
if os.path.isdir(sd):
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (s, m.get('caught_by', m['property']), m['needs'], m['what_it_breaks']))
    t = t.replace('@SEEDS@', '\n'.join(rows))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
