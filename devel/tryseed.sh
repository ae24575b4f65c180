#!/bin/bash
# tryseed.sh <seed-id> [props...]: validates a planted bug in a scratch copy of /repo and runs checks on it
id=$1; shift
S=/verif/seeded/$id; W=/tmp/qvseed.$$
rm -rf "$W"; mkdir -p $W; cp -a /repo $W/repo; cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cd $W/repo
bash $W/demo/demo.sh >$W/o1 2>&1; c=$?
git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
bash $W/demo/demo.sh >$W/o2 2>&1; b=$?
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "$id: clean=$c (want 0) patched=$b (want !=0): $(tail -1 $W/o2)"
for p in ${*:-$prop}; do (cd /verif && QV_REPO=$W/repo python3-vt check.py $p 2>&1 | tail -3 | cut -c1-300); done
rm -rf "$W"
