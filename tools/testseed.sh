#!/bin/bash
# testseed.sh ID...: applies the planted bug to /repo, builds, runs the tests and the demonstration, then (with CHECK=1) the check
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  (cd /repo && bash $S/demo.sh >/tmp/ts.clean 2>&1); c=$?
  git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
  t=$(python3 -c "
import json
a=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/ts.json'))
m=[x for x in a if x not in o['passed']]
print('ok' if not m else 'FAILS '+str(m[:4]))")
  (cd /repo && bash $S/demo.sh >/tmp/ts.demo 2>&1); d=$?
  r=
  if [ -n "$CHECK" ]; then
    (cd /verif && timeout 900 python3-vt check.py $P >/tmp/ts.check.$id 2>&1); r="check=$? $(tail -1 /tmp/ts.check.$id)"
  fi
  git -C /repo checkout -q -- .
  echo "$id $P clean=$c build=$b tests=$t demo=$d $r"
done
bash /opt/vp/build.sh >/dev/null 2>&1
