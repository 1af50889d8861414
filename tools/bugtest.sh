#!/bin/bash
# tools/bugtest.sh ID [notest] [nocheck]: validate the planted bug seeded/ID in a scratch copy of /repo.
ID=$1; D=/verif/seeded/$ID; W=/tmp/bug_$ID; . /opt/vp/env.sh
rm -rf "$W"; mkdir "$W"; cp -a /repo "$W/repo"; rm -rf "$W/repo/.git/worktrees"
mkdir "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cd "$W/repo" || exit 1
run_demo() { (cd "$W/repo"; PYTHONPATH=$W/repo timeout 300 bash "$W/demo/demo.sh" > "$W/demo_$1.txt" 2>&1); echo "demo $1: $?"; }
run_demo clean
git apply "$D/patch.diff" || { echo "patch does not apply"; exit 1; }
run_demo bug
if [ "$2" != notest ]; then
  sed "s#/repo#$W/repo#g" /opt/vp/test.sh > "$W/test.sh"
  PYTHONPATH=$W/repo bash "$W/test.sh" "$W/out.json" > "$W/test.txt" 2>&1
  $PY -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
lost=set(b['stable'])-set(o['passed'])
print('tests lost:',len(lost),sorted(lost)[:5])"
fi
if [ "$3" != nocheck ]; then
  P=$($PY -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /verif; DST_REPO=$W/repo ./check $P > "$W/check.txt" 2>&1; echo "check $P: $?"; grep -m1 "^violation:" "$W/check.txt"; tail -1 "$W/check.txt"
fi
rm -rf "$W/repo"
