#!/bin/bash
# bugcheck.sh <seeded id> : apply, build, tests, demo, own check, undo, demo again
B=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
git apply --check "$B/patch.diff" || exit 1
git apply "$B/patch.diff"
trap 'git -C /repo checkout -q -- .' EXIT
bash /root/rt.sh
bash "$B/demo.sh" >/tmp/demo.out 2>&1; echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/demo.out
[ -n "$NOCHECK" ] || { (cd /verif && bash check.sh $P quick 2>&1 | tail -4); for q in $2; do echo "-- $q"; (cd /verif && bash check.sh $q quick 2>&1 | tail -2); done; }
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
bash "$B/demo.sh" >/tmp/demo.out 2>&1; echo "demo without patch: $? (want 0)"; tail -3 /tmp/demo.out
