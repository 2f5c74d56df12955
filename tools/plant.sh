#!/bin/bash
# Confirms a planted bug: tools/plant.sh ID [edit.py]  (edit.py edits the scratch copy given as argv[1] and is only needed the first time)
# Works on a scratch copy of /repo in /tmp/wt, writes seeded/ID/patch.diff, builds, runs the tests and the demo with and without the change.
set -e
ID=$1; S=/verif/seeded/$ID; W=/tmp/wt
if [ ! -d $W ]; then cp -a /repo $W; fi
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD
if [ -n "$2" ]; then python3 $2 $W; git -C $W diff > $S/patch.diff; else git -C $W apply $S/patch.diff; fi
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
git -C $W diff --stat
chmod +x $S/demo.sh
echo "demo unchanged:"; (cd /repo && timeout 300 bash $S/demo.sh) && echo ok || { echo "FAILS on unchanged"; exit 1; }
echo "demo changed:"; (cd $W && timeout 300 bash $S/demo.sh) && { echo "PASSES with the change"; exit 1; } || echo "fails as wanted"
git -C $W checkout -q -f FETCH_HEAD
