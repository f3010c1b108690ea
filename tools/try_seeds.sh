#!/bin/bash
# applies each planted bug (or those named) to /repo, runs its property's quick check, undoes it
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for d in ${@:-seeded/*}; do
  d=seeded/$(basename "$d")
  id=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  ./check.sh "$id" ${TIER:-quick} > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$id " /tmp/try.out; then
    echo "CAUGHT $(basename $d) $id (${e}s): $(grep -m1 'fails:' /tmp/try.out | cut -c1-200)"
  else
    echo "MISSED $(basename $d) $id rc=$rc (${e}s) $(tail -1 /tmp/try.out | cut -c1-200)"
  fi
done
