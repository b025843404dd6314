#!/usr/bin/env python3
"""mk.py <id> <property> <file> <needs> <what> : reads OLD/NEW blocks from stdin separated by lines ==== ; writes seeded/<id>/patch.diff + meta.json"""
import json, os, subprocess, sys
id, prop, needs, what = sys.argv[1:5]
blocks = sys.stdin.read().split('\n####\n')
W = '/tmp/w'
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
subprocess.check_call('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W), shell=True)
for b in blocks:
    f, rest = b.lstrip('\n').split('\n', 1)
    old, new = rest.split('\n====\n')
    new = new.rstrip('\n')
    old = old.rstrip('\n')
    p = os.path.join(W, f.strip())
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository.  exit 0: behaves as documented
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export TMPDIR=$(mktemp -d); trap 'rm -rf "$TMPDIR"' EXIT
/opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
''')
