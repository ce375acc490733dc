#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists, otherwise its reason must be in NOT."""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
TECH = 'static analysis: abstract interpretation of the source into gated value-flow terms, decided by global value numbering and random interpretation of the terms'
NOT = json.load(open(os.path.join(HERE, 'notapplicable.json')))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --tier thorough', technique=getattr(m, 'TECHNIQUE', TECH), level='other', level_note=m.NOTE if hasattr(m, 'NOTE') else m.RULE))
    else:
        na.append(dict(property=i, reason=NOT.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed', [x['property'] for x in na])
