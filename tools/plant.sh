#!/bin/bash
# plant.sh ID [check]: confirm a seeded change (or record the working-tree edit of /repo as its patch first)
#  - with /repo edited: the edit becomes seeded/ID/patch.diff
#  - builds, runs the stable tests, demo (must fail), the property's quick check; undoes; rebuilds; demo (must pass)
set -u
ID=$1; D=/verif/seeded/$ID
if [ -n "$(git -C /repo status --porcelain)" ]; then git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .; fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -f $D/demo.sh /tmp/plant_demo.sh 2>/dev/null
rm -rf /tmp/plant_demo; mkdir /tmp/plant_demo; cp -a $D/. /tmp/plant_demo/; rm -f /tmp/plant_demo/*.diff /tmp/plant_demo/meta.json
if [ "${NOCLEAN:-0}" = 0 ]; then
bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1 || echo "CLEAN BUILD FAILS"
(cd /repo && timeout 300 bash /tmp/plant_demo/demo.sh >/tmp/plant_demo0.log 2>&1); echo "$ID demo on clean: $?"
fi
git -C /repo apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1 || echo "BUILD FAILS"
if [ "${NOTEST:-0}" = 0 ]; then
bash /opt/vp/test.sh /tmp/plant_out.json >/tmp/plant_test.log 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant_out.json'))
st=b.get('stable') or b.get('passed') or b
miss=[t for t in st if t not in o['passed']]
print('stable tests missing:', miss)
X
fi
(cd /repo && timeout 300 bash /tmp/plant_demo/demo.sh >/tmp/plant_demo1.log 2>&1); echo "$ID demo with patch: $?"
if [ "${2:-check}" != nocheck ]; then
cd /verif; timeout 900 ./run.sh $P quick >/tmp/plant_check.log 2>&1; echo "$ID check $P: exit $? $(grep -c VIOLATION /tmp/plant_check.log)"; grep VIOLATION /tmp/plant_check.log | head -3
fi
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1
git -C /repo status --short
