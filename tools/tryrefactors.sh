#!/bin/bash
# run checks on behaviour-preserving edits; usage: tryrefactors.sh [ids...]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(python3 tools/refactors.py list | cut -d' ' -f1)
for b in $ids; do
  python3 tools/refactors.py apply $b || continue
  for p in ${PROPS:-$(python3 tools/refactors.py list | grep "^$b " | cut -d' ' -f2-)}; do
    s=$(date +%s); out=$(python3 check.py $p quick 2>&1); rc=$?
    echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E "obligations|VIOLATION|failed obl|does not build" | cut -c1-250 | tr '\n' '|')"
    python3 -c "
import json
e=json.load(open('evidence/$p.json'))['coverage']['not_discharged']
for o in e[:3]: print('     ', o['status'], o['name'][:150], (o['detail'] or '')[:150])"
  done
  git -C /repo checkout -q -- .
done
