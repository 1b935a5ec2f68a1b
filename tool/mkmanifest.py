#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py (kept next to each other so that they cannot drift apart)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.dirname(here)]
sys.dont_write_bytecode = True
import props
from fvlint.checks import REGISTRY
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}
        if p.get('observe'):
            o['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(o) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p['id'] in REGISTRY:
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['na']})
missing = set(REGISTRY) - {p['id'] for p in props.PROPS}
assert not missing, missing
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis only: every check re-exports the resolved syntax tree of /repo\'s current sources and decides from it.'}, f, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
