#!/bin/bash
# Run the check of each planted bug (or of the IDs given) on a scratch copy.
cd "$(dirname "$0")/.."
ids="${*:-$(ls seeded)}"
S=/tmp/trybugs.$$
for id in $ids; do
  rm -rf /tmp/trybugs.$$
  cp -a "${REPO:-/repo}" $S
  git -C $S apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY"; continue; }
  c=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  out=$(VERIF_REPO=$S timeout 900 ./run_check.py $c 2>&1); rc=$?
  n=$(echo "$out" | grep -c '^VIOLATION')
  [ $rc = 1 ] && w=CAUGHT || w=MISSED
  echo "$id $c $w rc=$rc violations=$n $(echo "$out" | grep -m1 '^  ' | cut -c1-110)"
done
rm -rf /tmp/trybugs.$$
