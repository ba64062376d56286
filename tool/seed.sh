#!/bin/bash
# tool/seed.sh ID [notest]: confirm a planted bug (applies, builds, passes the stable tests, demo flips) and run its property's check against it
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .; rm -rf /tmp/seed-demo-'$id EXIT
mkdir -p /tmp/seed-demo-$id; cp $d/* /tmp/seed-demo-$id/; rm -f /tmp/seed-demo-$id/patch.diff /tmp/seed-demo-$id/meta.json
timeout 300 bash /tmp/seed-demo-$id/demo.sh > /tmp/seed-$id.clean 2>&1; echo "demo clean: $?  ($(tail -1 /tmp/seed-$id.clean))"
git apply $d/patch.diff || { echo "NO APPLY"; exit 2; }
timeout 300 bash /tmp/seed-demo-$id/demo.sh > /tmp/seed-$id.bug 2>&1; echo "demo bug: $?  ($(tail -1 /tmp/seed-$id.bug))"
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed-$id.json > /tmp/seed-$id.log 2>&1
  python3 - /tmp/seed-$id.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
print("tests:", "all stable pass" if b<=p else "FAIL "+str(b-p))
P
fi
cd /verif; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
python3 check.py $p quick | tail -${LINES_OUT:-4}; echo "check exit ${PIPESTATUS[0]}"
