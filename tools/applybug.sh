#!/bin/bash
# applybug.sh <seeded-id> <PROPERTY>.. : run checks against a scratch copy of /repo with the planted bug (development only)
id=$1; shift
w=$(mktemp -d /tmp/ab.XXXXXX)
cp -a /repo $w/repo
git -C $w/repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf $w; exit 3; }
cd /verif
for p in "$@"; do
  VERIF_REPO=$w/repo VERIF_EVIDENCE_DIR=$w/ev ./check.sh $p > /tmp/ab-$id-$p.log 2>&1; r=$?
  echo "$id $p exit=$r $(grep -c ^VIOLATION /tmp/ab-$id-$p.log) violations, $(grep -c ^INCONCL /tmp/ab-$id-$p.log) inconclusive"
done
rm -rf $w
