#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from table import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in PROPS + NOT_APPLICABLE:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                              observe_at=p.get('observe', ['return values of the public operations']),
                              hook_needed=None))
        if p.get('state'):
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        assert len(d['title']) <= 80, d['title']
        fh.write(json.dumps(d) + '\n')

checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(V, 'lib', 'props', p['id'] + '.py')):
        continue
    checks.append(dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'],
                       thorough_cmd='bash run.sh %s thorough' % p['id'],
                       technique=p['technique'], level='exploration', level_note=p['note']))
have = {c['property'] for c in checks}
na = [dict(property=p['id'], reason=p['reason']) for p in NOT_APPLICABLE]
na += [dict(property=p['id'], reason='no check built yet') for p in PROPS if p['id'] not in have]
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes=NOTES), fh, indent=1)
    fh.write('\n')
