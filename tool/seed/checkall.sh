#!/bin/bash
# checkall.sh ID… : apply each planted bug to /repo, run its property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /verif && python3 sa/check.py $p > /tmp/ca.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit $rc $(grep -c '^VIOLATION property='$p /tmp/ca.log)"
done
