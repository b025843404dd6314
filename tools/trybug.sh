#!/bin/bash
# trybug.sh <seeded-id> [notest] : in a scratch copy of /repo: demo passes without / fails with the patch, stable tests pass with it
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/tb.XXXXXX)
cp -a /repo "$w/repo"
cd "$w/repo"
export PYTHONPATH=$w/repo PYTHONDONTWRITEBYTECODE=1 TMPDIR=$w/t; mkdir -p $w/t
bash $d/demo.sh >$w/d0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $d/demo.sh >$w/d1.log 2>&1; r1=$?
echo "$id demo: unchanged=$r0 patched=$r1 | $(tail -1 $w/d1.log | cut -c1-200)"
if [ "$2" != notest ]; then
  sed "s#/repo/#$w/repo/#g; s#-e /repo#-e $w/repo#; s#--rootdir /repo#--rootdir $w/repo#" /opt/vp/test.sh > $w/test.sh
  bash $w/test.sh $w/out.json > $w/test.log 2>&1
  python3 - $w/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
p=set(t['passed'])
m=[x for x in (b.get('stable') or b.get('passed')) if x not in p]
print('  tests missing:', len(m), m[:6])
P
fi
rm -rf "$w"
