#!/bin/bash
# tools/try.sh BUG...: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$b/patch.diff" || continue
  for q in ${ALSO:-$p}; do
    ./check $q >/tmp/try.$b.$q.log 2>&1; rc=$?
    echo "$b $q rc=$rc $(grep -a '^  ' /tmp/try.$b.$q.log | head -1 | cut -c1-200)"
  done
  git -C /repo checkout -- .
done
