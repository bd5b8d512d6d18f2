#!/bin/bash
# tryseed.sh ID...: confirm a planted change: demo passes before, builds, stable tests pass, demo fails after, check result
cd /repo
git diff --quiet || { echo "/repo dirty"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( timeout 300 bash $d/demo.sh >/tmp/demo0.out 2>&1 ); a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$QUICKSEED" ]; then
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  python3 - > /tmp/seed.txt <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
st=b.get('stable') or b.get('passed') or b
m=[t for t in st if t not in r['passed']]
print("tests ok" if not m else "TESTS FAIL %s"%m[:3])
X
  else bash /opt/vp/build.sh >/dev/null 2>&1; echo "tests not run" >/tmp/seed.txt; fi
  ( timeout 300 bash $d/demo.sh >/tmp/demo1.out 2>&1 ); b=$?
  c=$(cd /verif; timeout 900 python3 -m sa.run $p quick > /tmp/seedcheck.out 2>&1; echo $?)
  git checkout -q -- .
  echo "$id $p demo $a->$b, $(cat /tmp/seed.txt), check rc=$c"
  [ $a = 0 ] || tail -3 /tmp/demo0.out
  [ $b != 0 ] || echo "   DEMO DOES NOT FAIL"
  tail -1 /tmp/demo1.out | cut -c1-150
done
bash /opt/vp/build.sh >/dev/null 2>&1
git status --short | head
