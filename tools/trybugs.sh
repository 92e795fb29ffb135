#!/bin/bash
# apply every planted change to /repo in turn, run the check of its property (or all given), undo
cd /verif
for d in ${BUGS:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    timeout 900 python3 engine/check.py $c > /tmp/try.out 2>&1; rc=$?
    echo "$d $c rc=$rc $(grep -c '^VIOLATION' /tmp/try.out) $(grep -m2 'violated ' /tmp/try.out | tail -1 | cut -c1-160)"
  done
  git -C /repo checkout -- .
done
