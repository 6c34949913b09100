#!/bin/bash
# usage: seed_checks.sh [ID...] -- applies each planted bug to /repo, runs its property's quick check, undoes it (helper)
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C ${RT_REPO:-/repo} apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$SECONDS; ./run.sh $p quick > /tmp/seed_$s.log 2>&1; rc=$?
  git -C ${RT_REPO:-/repo} checkout -q -- .
  echo "$s $p exit=$rc $(grep -c "^VIOLATION property=$p " /tmp/seed_$s.log) $((SECONDS-t0))s $(grep -m1 '^  \[' /tmp/seed_$s.log | cut -c1-100)"
done
