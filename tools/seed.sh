#!/bin/bash
# seed.sh NAME PROPERTY: takes the uncommitted change in /repo as planted bug NAME (its demo files are
# already in seeded/NAME), confirms it and runs the property's check against it. The change is undone.
set -u
N="$1"; P="$2"; S=/verif/seeded/$N
git -C /repo diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "no change"; exit 1; }
ok=1
(cd /repo && bash /opt/vp/build.sh >/tmp/seed.build 2>&1) || { echo "BUILD FAILS"; tail -5 /tmp/seed.build; ok=0; }
bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1
python3 -c "import json,sys; d=json.load(open('/tmp/seed.json')); sys.exit(1 if d['failed'] else 0)" || { echo "TESTS FAIL"; ok=0; }
(cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/seed.demo 2>&1) && { echo "DEMO PASSES WITH BUG"; ok=0; }
(cd /verif && timeout 900 ./run.sh "$P" quick >/tmp/seed.check 2>&1); r=$?
git -C /repo checkout -- .
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1)
(cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/seed.demo2 2>&1) || { echo "DEMO FAILS WITHOUT BUG"; tail -5 /tmp/seed.demo2; ok=0; }
echo "valid=$ok check=$P exit=$r $(grep -m1 -A2 VIOLATION /tmp/seed.check | tail -1)"
