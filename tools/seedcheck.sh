#!/bin/bash
# seedcheck.sh ID... : run the property's check with the planted bug applied to /repo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s); out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick bin/check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ($p): rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ')"
done
