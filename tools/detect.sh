#!/bin/bash
# detect.sh <seed id>... : applies each planted bug to /repo, runs its property's check, undoes it.
for i in "$@"; do
  d=/verif/seeded/$i
  p=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  t=$(date +%s)
  bash /verif/check.sh $p > /tmp/detect.$i.log 2>&1
  rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 '^VIOLATION' /tmp/detect.$i.log) :: $(grep -m1 -v '^seed' /tmp/detect.$i.log | cut -c1-160)"
done
