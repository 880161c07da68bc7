#!/bin/bash
# seedtest.sh ID...: applies each planted bug to /repo, builds, runs the tests, the demonstration and the check of its property.
cd /verif
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  test -z "$(git -C /repo status --porcelain)" || { echo "/repo is not clean"; exit 1; }
  (cd /repo && bash $s/demo.sh >/tmp/seed.out 2>&1); clean=$?
  git -C /repo apply $s/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh 2>&1 | grep -v '^ok'
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  miss=$(python3 -c "
import json
o=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])))")
  (cd /repo && bash $s/demo.sh >/tmp/seed.out 2>&1); bad=$?
  if [ -z "$NOCHECK" ]; then
    out=$(timeout 900 python3-vt check.py $prop quick 2>&1); rc=$?
    line=$(echo "$out" | grep VIOLATION | head -1)
  fi
  git -C /repo checkout -q -- .
  echo "$id clean=$clean patched=$bad tests_missing=$miss check=$rc $line"
done
