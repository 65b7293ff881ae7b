#!/bin/bash
# catch.sh ID...: apply each seeded change to /repo, run its property's quick check, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} python3 /verif/check/run.py $p > /tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id: rc=$rc $(grep -m1 VIOLATION /tmp/catch.$id.log)"
done
