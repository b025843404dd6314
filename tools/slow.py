#!/usr/bin/env python3
import json, sys
d = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))['coverage']['tasks']
d.sort(key=lambda t: -t['wall_s'])
print(sum(t['wall_s'] for t in d), 'total')
for t in d[:15]:
    print(t['task'], t['wall_s'])
