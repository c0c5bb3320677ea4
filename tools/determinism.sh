#!/bin/bash
# Runs every check with different numbers of worker processes and compares the checksum over all run histories
# (choices, schedules, faults and output bytes). RUNS and VERIF_SEED may be set.
cd "$(dirname "$0")/.." && ./check.sh build || exit 2
bad=0
for id in $(./check.sh list); do
  sums=()
  for w in 8 3 1; do
    sums+=("$(SIM_PROBES=1 SIM_WORKERS=$w SIM_RUNS=${RUNS:-3000} target/release/sim check "$id" | grep -o '"histories_checksum": [0-9]*')")
  done
  if [ -n "${sums[0]}" ] && [ "${sums[0]}" = "${sums[1]}" ] && [ "${sums[1]}" = "${sums[2]}" ]; then
    echo "$id same ${sums[0]}"
  else
    echo "$id DIFFERS ${sums[*]}"; bad=1
  fi
done
exit $bad
