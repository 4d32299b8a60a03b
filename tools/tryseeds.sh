#!/bin/bash
# Runs each planted bug's check against it: tools/tryseeds.sh [id...]
cd /verif
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  VERIF_SEED=1 python3 check.py $p > /tmp/tryseed.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/tryseed.$id.log)"
done
