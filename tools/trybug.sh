#!/bin/bash
# trybug.sh ID...: apply each planted bug to /repo, run the check of its property, undo
cd /verif
for id in "$@"; do
  p=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  out=$(timeout 900 /opt/venv/bin/python check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION | head -2)"
  [ $rc -eq 1 ] || echo "$out" | tail -5
done
