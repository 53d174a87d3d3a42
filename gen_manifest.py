#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
NA = {
 'C47': 'Statistical and complexity claims about expectations; a specification in TLA+ says which behaviours are possible, not how likely they are.',
}
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    id = p['id']
    if id in PROPS:
        c = PROPS[id]
        checks.append({'property': id, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + id, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + id,
                       'evidence_file': 'evidence/%s.json' % id, 'technique': c['technique'], 'level': c.get('level', 'model_checking'), 'level_note': c['note']})
    else:
        na.append({'property': id, 'reason': NA.get(id, 'No check for it has been built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'No hooks are committed in /repo: the checks instrument a scratch copy of the working tree at build time.', 'source_commits': []},
     'notes': 'TLA+ with TLC. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
