#!/bin/bash
# dev helper: bugcheck.sh ID...: run the property's check against each planted bug (applied to /repo, undone afterwards)
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  timeout 1000 python3 driver/check.py ${P:-$p} > /tmp/bug_$b.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "== $b $p rc=$r $(grep -c ^VIOLATION /tmp/bug_$b.log) violations; $(grep "quick:" /tmp/bug_$b.log)"
  [ $r != 1 ] && tail -5 /tmp/bug_$b.log
done
