#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand when the claims change)."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS  # noqa

root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in PROPS:
    if 'na' in p:
        man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        man['checks'].append(dict(property=p['id'], quick_cmd='./check.sh %s' % p['id'], thorough_cmd='./check.sh %s --thorough' % p['id'],
                                  technique=p['technique'], level='other', level_note=p['note']))
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
