#!/bin/bash
# mkbug.sh ID: takes the edits made in /tmp/bugs/repo (a copy of /repo), confirms them, writes seeded/ID/patch.diff.
# The demo and meta.json must already be in /verif/seeded/ID.
ID=$1; D=/verif/seeded/$ID; W=/tmp/bugs/repo
git -C $W diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $D/patch.diff || exit 1
bash -c "cd /repo && bash $D/demo.sh" >/tmp/bugs/demo0.log 2>&1; a=$?
git -C /repo apply $D/patch.diff
bash /opt/vp/build.sh >/tmp/bugs/build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/bugs/t.json >/dev/null 2>&1
bash -c "cd /repo && bash $D/demo.sh" >/tmp/bugs/demo1.log 2>&1; c=$?
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ -z "$NOCHECK" ]; then VERIF_SEED=1 VERIF_TIER=quick python3 /verif/tools/check.py $P >/tmp/bugs/check.log 2>&1; k=$?; fi
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
git -C $W checkout -- .
echo "$ID clean=$a build=$b tests=$(cat /tmp/bugs/t.json) demo=$c check[$P]=$k $(grep -m1 VIOLATION /tmp/bugs/check.log)"
