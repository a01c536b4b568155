#!/bin/bash
# tryseeds.sh ID...: run each planted bug's own check on a scratch copy of /repo with the bug applied (development only)
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  t=$(mktemp -d /tmp/tryseed.XXXXXX)
  cp -a /repo "$t/repo"; git -C "$t/repo" apply "$V/seeded/$id/patch.diff" || echo "does not apply"
  prop=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  PYVC_REPO="$t/repo" PYVC_EVID="$t/ev" python3-vt -B "$V/check.py" $prop quick > "$t/out" 2>&1; rc=$?
  echo "$id $prop rc=$rc $(grep -c VIOLATION "$t/out") $(grep VIOLATION "$t/out" | grep -c no-failing) | $(grep 'theorem ' "$t/out" | head -2 | cut -c1-150 | tr '\n' ';') | $(tail -1 "$t/out" | cut -c1-200)"
  rm -rf "$t"
done
