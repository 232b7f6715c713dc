#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
out = os.path.join(here, '..')
with open(os.path.join(out, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['st'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'hook_needed': None},
        }) + '\n')
checks, na = [], []
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.sh %s quick' % p['id'],
        'thorough_cmd': './run.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['tech'],
        'level': p.get('level', 'exploration'),
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks are needed in /repo: every monitor drives the exported API, the real programs over their sockets and terminals, or a wrapped connection. The fix: commits in /repo repair defects listed in known-findings.txt.'}
with open(os.path.join(out, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
