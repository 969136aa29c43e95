#!/usr/bin/env bash
# try_bug.sh ID...: apply a planted bug to /repo, run its property's quick check, undo.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash run.sh $p > /tmp/try_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/try_$id.log) $(grep -v -E 'VIOLATION|KNOWN|cases,' /tmp/try_$id.log | grep "^\[$p\]" | cut -c1-160 | head -3)"
done
