#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 2
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  a=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $p > /tmp/seedrun.$s 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s)-a ))s $(grep -m1 '^VIOLATION' /tmp/seedrun.$s)"
done
