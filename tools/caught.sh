#!/bin/bash
# tools/caught.sh [ID...]: apply each planted bug to /repo, run its property's check, undo
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$(date +%s); ./check.py $p > /tmp/caught.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep VIOLATION /tmp/caught.out | cut -c1-140)"
  grep -E "^  (refuted|unknown|fails)" /tmp/caught.out | head -3 | cut -c1-170
done
