#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand; both are committed)"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import registry
from tools.props import PROPS
NA = {}
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in PROPS:
        q = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('obs', []), hook_needed=None))
        if p.get('state'): q['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(q) + '\n')
checks = []; na = []
for p in PROPS:
    c = registry.CHECKS.get(p['id'])
    if not c: na.append(dict(property=p['id'], reason=p.get('na', 'no check built yet'))); continue
    checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p["id"]}', evidence_file=f'evidence/{p["id"]}.json',
        technique=c.get('technique', 'contract-based deductive verification (Verus) of functions extracted from /repo on every run; failed obligations are turned into concrete failing inputs on the real code by a contract search'),
        level=c.get('level', 'proof'), level_note=c.get('note', p.get('note', ''))))
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='none', enable='no hooks: /repo is used as it is', source_commits=[]), checks=checks, not_applicable=na,
    notes='Known findings and repaired defects: known_findings.txt. Design: DESIGN.md.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
