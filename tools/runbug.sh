#!/bin/bash
# usage: runbug.sh ID...   applies each planted bug to /repo, runs the check of its property, undoes it
cd /verif
for b in "$@"; do
  d=/verif/seeded/$b
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
  git -C /repo apply $d/patch.diff || { echo "$b does not apply"; continue; }
  s=$(date +%s)
  o=$(./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -E '^(VIOLATION|  )' | head -2 | tr '\n' ' ' | cut -c1-260)"
  [ $rc -gt 1 ] && echo "$o" | tail -5
done
