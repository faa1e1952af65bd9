#!/bin/bash
# catch.sh ID...: (development) runs the check of each planted bug's property against it
cd /verif
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch"; continue; }
  t0=$(date +%s)
  VERIF_SEED=${SEED:-1} bash check.sh $p > /tmp/w/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t0 )) s $(grep -c '^VIOLATION' /tmp/w/catch.$id.log)  $(grep -B2 '^VIOLATION' /tmp/w/catch.$id.log | head -2 | cut -c1-200 | tr '\n' ' ')"
  [ $rc = 1 ] || tail -2 /tmp/w/catch.$id.log
done
