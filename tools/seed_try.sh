#!/bin/bash
# development aid: seed_try.sh ID  -- /repo has the planted change in its working tree; record it, run tests, demo and check, undo it
id=$1; d=/verif/seeded/$id; mkdir -p $d
[ -n "$(git -C /repo diff)" ] && git -C /repo diff > $d/patch.diff || git -C /repo apply $d/patch.diff
cp -n /verif/harness/crgh.hpp /verif/harness/tables.hpp $d/ 2>/dev/null
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /tmp/rt.sh
( cd /repo; timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1 ); echo "demo with patch: $?"; tail -3 /tmp/demo.out
cd /verif; timeout 900 python3-vt check.py --property $prop --tier quick > /tmp/chk.out 2>&1; echo "check: $?"; grep -v " proved " /tmp/chk.out | tail -${2:-14} | cut -c1-400
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
( cd /repo; timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1 ); echo "demo without patch: $?"; tail -3 /tmp/demo.out
