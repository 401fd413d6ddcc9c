#!/bin/bash
# check.sh ID [quick|thorough] : builds the simulator from /repo's working tree and runs the seeded search for one property.
cd "$(dirname "$0")" || exit 3
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
BIN=$(bash build.sh /repo) || { echo "check error: the simulator does not build" >&2; exit 3; }
mkdir -p evidence replays
case $TIER in
    thorough) LIMIT=600; RUNS=100000000;;
    *) TIER=quick; LIMIT=45; RUNS=1000000;;
esac
grep "^KNOWN-FINDING: property=$ID " known-findings.txt 2>/dev/null
exec "$BIN" --check "$ID" --tier "$TIER" --seed "$SEED" --runs "$RUNS" --limit "$LIMIT" --evidence "evidence/$ID.json" --replays replays
