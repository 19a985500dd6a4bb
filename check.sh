#!/bin/bash
# check.sh <property-id> [quick|thorough] [extra harness arguments]
# Rebuilds the library from /repo's working tree (sanitized, coverage instrumented),
# builds the property's harness and runs it.
cd "$(dirname "$0")" || exit 2
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
SEED="${VERIF_SEED:-1}"
mkdir -p evidence replays build
python3 tools/build.py "$ID" > "build/$ID.log" 2>&1 || { cat "build/$ID.log"; echo "check.sh: building $ID failed"; exit 3; }
BIN=$(tail -1 "build/$ID.log")
exec "$BIN" --tier "$TIER" --seed "$SEED" --evidence "$PWD/evidence/$ID.json" --replay-dir "$PWD/replays" --known "$PWD/known_findings.txt" "$@"
