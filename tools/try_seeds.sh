#!/bin/bash
# tools/try_seeds.sh [ids]: which checks catch which planted changes (applies each to /repo and undoes it)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(timeout 900 python3 check.py --property $p --jobs 8 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-160)"
done
