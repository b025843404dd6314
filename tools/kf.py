#!/usr/bin/env python3
"""kf.py fixed <prop> <commit> <text>  |  kf.py known <prop> <key> <text>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
kind, prop, a, text = sys.argv[1:5]
if kind == 'fixed':
    d.append(dict(property=prop, status='fixed', commit=a, what='fixed: property=%s %s %s' % (prop, a, text)))
else:
    d.append(dict(property=prop, key=a, status='known', what=text))
json.dump(d, open(p, 'w'), indent=1)
