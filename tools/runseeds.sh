#!/bin/bash
# development helper: run every seeded bug (or those named) against its own check
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  out=$(python3 engine/run.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -v '^KNOWN' | grep -v '^VIOL' | head -2 | cut -c1-200 | tr '\n' ' ')"
done
