#!/bin/bash
# tryseeds.sh [ID...] : apply each planted change to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i DOES NOT APPLY"; continue; }
  t=$SECONDS; timeout 900 python3 run.py check $p quick > /tmp/seed.$i.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $((SECONDS-t))s $(grep -c ^VIOLATION /tmp/seed.$i.out) $(grep -m1 -A1 ^VIOLATION /tmp/seed.$i.out | tail -1 | cut -c1-150)"
done
