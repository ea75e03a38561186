#!/bin/bash
# runseed.sh ID...: applies each planted bug, runs the check of its property, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && ./check $p > /tmp/seed-$id.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s: $(grep -c 'not discharged' /tmp/seed-$id.log) failed obligations; $(grep VIOLATION /tmp/seed-$id.log) | $(grep -o 'replay: .*' /tmp/seed-$id.log | tail -1 | cut -c1-150)"
  rm -f /verif/build/il-*.json.old
done
