#!/bin/bash
# apply each planted bug to /repo, run the check of its property, undo
for d in ${@:-/verif/seeded/*}; do
  d=/verif/seeded/$(basename $d)
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s); out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 engine/check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$(basename $d) $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m2 VIOLATION)"
done
