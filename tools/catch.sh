#!/bin/bash
# catch.sh [id...]: run the quick check of each planted bug's own property on a patched scratch copy of
# /repo (never on /repo itself) and print which check catches which bug.  KVARGS is passed to run.py.
cd "$(dirname "$0")/.." || exit 2
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
 W=$(mktemp -d /tmp/kvcatch.XXXXXX)
 git clone -q /repo "$W/r" && git -C "$W/r" apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
 P=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "seeded/$id/meta.json")
 KV_REPO=$W/r timeout 900 /opt/venv/bin/python run.py "$P" ${KVARGS} > "$W/o" 2>&1; rc=$?
 m=$(grep -m1 -A1 VIOLATION "$W/o" | tail -1 | cut -c1-110)
 [ $rc = 1 ] && echo "$id $P CAUGHT $m" || echo "$id $P MISSED rc=$rc"
 find "$W" -delete
done
