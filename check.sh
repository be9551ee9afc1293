#!/bin/bash
# check.sh PROPERTY TIER : builds the simulator from /repo's working tree and searches for violations.
set -u
cd "$(dirname "$0")"
P=$1; T=${2:-quick}; SEED=${VERIF_SEED:-1}
SIM=$(./build.sh) || { echo "check: build failed" >&2; exit 3; }
if [ "$T" = thorough ]; then RUNS=${SIM_RUNS:-3000000}; BUDGET=${SIM_BUDGET:-720}; else RUNS=${SIM_RUNS:-120000}; BUDGET=${SIM_BUDGET:-40}; fi
mkdir -p evidence replays
timeout 880 "$SIM" --prop "$P" --seed "$SEED" --runs "$RUNS" --jobs "${SIM_JOBS:-8}" --budget "$BUDGET" --tier "$T" --evidence "evidence/$P.json" --replay-dir replays --known KNOWN_FINDINGS
rc=$?
case $rc in 0|1) exit $rc;; *) echo "check: simulator error $rc" >&2; exit 3;; esac
