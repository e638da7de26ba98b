#!/bin/bash
# catch.sh [ID...]: runs each planted bug's own check against it, in /repo, and undoes it.
cd /verif/seeded || exit 1
[ $# -eq 0 ] && set -- *
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  (cd /verif; python3 check.py $p > run/catch.$id.log 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -m1 -E '^  [a-z-]+: ' run/catch.$id.log | cut -c1-160)")
  git -C /repo checkout -q -- .
done
