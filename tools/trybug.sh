#!/bin/bash
# trybug.sh ID...: runs the check of each planted bug's property against it.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -n "$(git -C /repo status --porcelain)" ]; then echo "repo not clean"; exit 1; fi
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id ($p): exit $rc; $(echo "$out" | grep VIOLATION)"
  echo "$out" | grep -v VIOLATION | cut -c1-${W:-260} | head -${N:-4}
done
