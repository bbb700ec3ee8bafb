#!/bin/bash
# run the check of each planted bug's property against it; usage: trybugs.sh [ids...]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep VIOLATION | head -3)"
done
