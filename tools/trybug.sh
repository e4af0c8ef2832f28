#!/bin/bash
# trybug.sh ID...: runs the check of each planted bug's property with the bug applied to /repo, and undoes it.
cd "$(dirname "$0")/.."
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { git -C /repo apply -R /verif/seeded/$i/patch.diff 2>/dev/null; echo "$i: does not apply"; continue; }
  t=$(date +%s)
  ./check $p quick > /tmp/try_$i.txt 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$i: exit $r, $(( $(date +%s)-t )) s: $(grep -m1 "^VIOLATION" /tmp/try_$i.txt | cut -c1-200)"
done
