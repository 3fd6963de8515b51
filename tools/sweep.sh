#!/bin/sh
# sweep.sh [ID...]: runs each planted bug's own check against it (applies the patch to /repo and takes it back)
cd /verif
for d in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d $p DOES-NOT-APPLY"; continue; }
  timeout 900 python3 tools/check.py --prop $p --tier quick --seed 1 > work/sweep.$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c '^VIOLATION property='$p work/sweep.$d.log) $(tail -1 work/sweep.$d.log | cut -c1-150)"
done
