#!/bin/bash
# Applies the edits of refactors/, none of which changes behaviour, to /repo and runs the quick checks (or those of the
# ids given): each has to stay quiet.
cd /verif || exit 1
git -C /repo diff --quiet || { echo "/repo is modified"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${REFACTORS:-refactors/*.diff}; do
  git -C /repo apply "/verif/$d" || exit 1
done
for p in ${*:-$(seq -f 'C%02g' 1 30)}; do
  s=$(date +%s)
  VERIF_TIER=quick timeout 900 bash tools/check.sh "$p" quick >/tmp/refactor.out 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(grep -E 'VIOLATION|INCOMPLETE|MISMATCH|NOT REPRO|TIMEOUT' /tmp/refactor.out | head -3 | cut -c1-250)"
done
