#!/bin/bash
# runseeds.sh [ids...]: applies each planted bug to /repo, runs the check of its property, undoes it.
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  [ -d "seeded/$id" ] || id=$(ls seeded | grep -m1 "^$id-")
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_TIER=quick mc/check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 'violation \[' | cut -c1-160)"
done
