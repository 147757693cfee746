#!/bin/bash
# Development tool: apply each planted bug to /repo, run its property's check, undo.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 python3-vt engine/runner.py $p > /tmp/trybug.$d 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/trybug.$d)"
done
