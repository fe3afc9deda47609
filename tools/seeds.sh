#!/bin/bash
# seeds.sh FROM TO [ID…]: every check under each VERIF_SEED; prints what is not "held" (soundness on the unchanged tree)
V=$(cd "$(dirname "$0")/.." && pwd)
from=$1; to=$2; shift 2
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C25 C26}
for s in $(seq "$from" "$to"); do
  for i in $ids; do
    VERIF_SEED=$s SIM_VERIF=${SIM_VERIF:-$V} SIM_BIN=${SIM_BIN:-$V/target/pod/debug} "${SIMCTL:-$V/target/sim/release/simctl}" check "$i" 2>&1 | grep -v KNOWN-FINDING | grep -v ": held" | sed "s/^/seed $s: /" | cut -c1-400
  done
  echo "seed $s done"
done
