#!/bin/bash
# [TIER=quick] tryseeds.sh [id ...]: applies each planted change to /repo, runs its property's check hastily, undoes it
cd /verif
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  s=$(date +%s)
  python3 check.py $p ${TIER:-try} > /tmp/tryseed.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/tryseed.out | cut -c1-100)"
done
