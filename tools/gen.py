#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']], hook_needed=None))
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p['id'], quick_cmd='bash run.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough bash run.sh ' + p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note'])
                 for p in PROPS if p['claimed']],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in PROPS if not p['claimed']],
         notes='See DESIGN.md. No hooks in /repo are needed; known findings are in known-findings.txt.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
