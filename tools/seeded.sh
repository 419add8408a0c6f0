#!/bin/bash
# Runs the quick check of each planted bug's property (or of the ids given) with the bug in place.
cd /verif || exit 1
git -C /repo diff --quiet || { echo "/repo is modified"; exit 1; }
for d in ${*:-seeded/*/}; do
  d=seeded/$(basename "$d")
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  git -C /repo apply "/verif/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  VERIF_TIER=quick timeout 900 bash tools/check.sh "$p" quick >/tmp/seeded.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$(basename "$d") $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E 'VIOLATION|INCOMPLETE' /tmp/seeded.out | cut -c1-150)"
done
