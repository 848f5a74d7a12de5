#!/bin/bash
# try_seed.sh ID [check]: does the planted bug count, and does its check see it?
D=/verif/seeded/$1; cd /repo || exit 3
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 3; }
bash /opt/vp/build.sh > /tmp/ts.b 2>&1; mkdir -p /tmp/ts.$1; cp -r $D/. /tmp/ts.$1/
bash /tmp/ts.$1/demo.sh > /tmp/ts.d0 2>&1; r0=$?
git apply $D/patch.diff || exit 3
bash /opt/vp/build.sh > /tmp/ts.b 2>&1 || { echo build failed; tail -5 /tmp/ts.b; }
[ "$NOTEST" ] || /tmp/rt.sh
bash /tmp/ts.$1/demo.sh > /tmp/ts.d1 2>&1; r1=$?
echo "$1: demo unchanged $r0 ($(tail -1 /tmp/ts.d0)) patched $r1 ($(tail -1 /tmp/ts.d1))"
if [ "$2" ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  (cd /verif; VERIF_SEED=1 python3 bin/check.py $P quick 2>&1 | cut -c1-200 | grep -v "^  " | head -${LINES_MAX:-4})
fi
git -C /repo checkout -- . ; rm -rf /tmp/ts.$1
bash /opt/vp/build.sh > /tmp/ts.b 2>&1
