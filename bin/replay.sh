#!/bin/bash
# replay.sh FILE: runs one recorded case again.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$1")
python3 "$V/harness/mkbuild.py" /repo "$V" "$V/build" && ninja -C "$V/build" "$V/build/$ID" >/dev/null && exec "$V/build/$ID" --known "$V/known-findings.json" --replay "$1"
