#!/bin/bash
# seedtest.sh [--nodemo] [--all-checks] ID...: applies each planted bug to /repo, builds, runs the
# stable tests, its demo and its property's check, and undoes it.  Development only.
V=/verif
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/sd.clean 2>&1); c0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (bash /opt/vp/build.sh >/tmp/sd.build 2>&1); b=$?
  bash /opt/vp/test.sh /tmp/sd.json >/dev/null 2>&1
  t=$(python3 -c "
import json
o=json.load(open('/tmp/sd.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])))")
  (cd /repo && bash $d/demo.sh >/tmp/sd.demo 2>&1); c1=$?
  python3 $V/check.py --property $p --tier quick >/tmp/sd.check 2>&1; k=$?
  git -C /repo checkout -q -- .
  ok=ok; { [ $c0 != 0 ] || [ $b != 0 ] || [ $t != 0 ] || [ $c1 = 0 ]; } && ok=BAD-SEED
  [ $k = 1 ] && grep -q "^VIOLATION property=$p " /tmp/sd.check && r=caught || r="MISSED($k)"
  echo "$id $p seed=$ok clean_demo=$c0 build=$b tests_lost=$t demo=$c1 check=$r $(grep -m1 'is broken' /tmp/sd.check | cut -c1-160)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
