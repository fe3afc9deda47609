#!/bin/bash
# check.sh ID: decides one property on /repo's working tree (VERIF_SEED, VERIF_TIER).
VERIF=$(cd "$(dirname "$0")/.." && pwd)
"$VERIF/bin/build.sh" || { echo "check $1: cannot build" >&2; exit 2; }
export SIM_VERIF=$VERIF SIM_BIN=$VERIF/target/pod/debug
exec "$VERIF/target/sim/release/simctl" check "$1"
