#!/bin/bash
# Runs, for each planted change, the quick check of its property against it: tools/seeds.sh [ID...]
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 ./check.sh $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' <<<"$out")"
done
