#!/bin/bash
# developer helper: tryseed.sh ID... : demo on the clean tree, then (patched) tests, demo and the property's check
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
t=skipped; [ -z "$NOTEST" ] && t=$(bash /verif/tools/rt.sh 2>&1 | tail -1)
bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
c=skipped; [ -z "$NOCHECK" ] && { bash /verif/run.sh $prop quick >/tmp/chk.log 2>&1; c=$?; }
git checkout -q -- .
echo "$id prop=$prop demo-clean=$a demo-bug=$b tests:{$t} check=$c $(grep -h VIOLATION /tmp/chk.log | head -1)"
done
