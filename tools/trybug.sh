#!/bin/bash
# trybug.sh ID... : apply to /repo, build, run tests and demo, run the property's check, undo
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  if [ -z "$CHECKONLY" ]; then
  bash /opt/vp/test.sh /tmp/tb.json > /tmp/tb.log 2>&1; np=$(python3 -c "import json;d=json.load(open('/tmp/tb.json'));b=json.load(open('/opt/vp/BASELINE.json'));s=b.get('stable',b.get('passed',[]));print(len(d['passed']),d.get('failed'))")
  (cd /repo; bash /verif/seeded/$b/demo.sh >/tmp/tb.demo 2>&1); dr=$?
  fi
  o=$(python3 check.py $p 2>&1); cr=$?
  git -C /repo checkout -- .
  echo "== $b $p tests=$np demo(bug)=$dr check=$cr $(echo "$o" | tail -3 | cut -c1-300 | tr '\n' '|')"
done
[ -z "$CHECKONLY" ] && bash /opt/vp/build.sh > /dev/null 2>&1
[ -z "$CHECKONLY" ] && for b in "$@"; do (cd /repo; bash /verif/seeded/$b/demo.sh >/dev/null 2>/tmp/tb.derr) || { echo "!! $b demo fails on clean"; tail -3 /tmp/tb.derr; }; done
true
