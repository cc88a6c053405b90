#!/bin/bash
# Development helper: recheck.sh [ID...]: run the check of each planted bug against a scratch copy of /repo with the bug applied
V=$(cd "$(dirname "$0")/.." && pwd); R=/tmp/sb/rc; 
[ $# = 0 ] && set -- $(ls $V/seeded)
for id in "$@"; do
  rm -rf $R; mkdir -p /tmp/sb; git clone -q /repo $R
  git -C $R apply $V/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  out=$(GUL_REPO=$R python3 $V/run.py $p quick 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "$id ($p): caught: $(head -1 <<<"$out" | cut -c1-150)"; else echo "$id ($p): MISSED rc=$rc"; fi
done
