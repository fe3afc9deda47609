#!/bin/bash
# replay.sh FILE: executes a replay file on /repo's working tree; 1: the violation shows again, 0: it does not.
VERIF=$(cd "$(dirname "$0")/.." && pwd)
F=$(realpath "$1")
"$VERIF/bin/build.sh" || exit 2
export SIM_VERIF=$VERIF SIM_BIN=$VERIF/target/pod/debug
exec "$VERIF/target/sim/release/simctl" replay "$F"
