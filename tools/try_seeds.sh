#!/bin/bash
# try_seeds.sh ID...: each planted bug against the check of its property, in /repo, undone afterwards
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); o=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$c $(( $(date +%s) - s ))s $(echo "$o" | grep -c VIOLATION) $(echo "$o" | grep VIOLATION | head -3 | tr '\n' ';')"
done
