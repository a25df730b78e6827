#!/bin/bash
# check.sh <PROPERTY> : one simulated check; VERIF_SEED and VERIF_TIER decide the runs
cd "$(dirname "$0")" || exit 2
. ./env.sh
setup_env "$1" || exit 2
run_py -m sim.engine check "$1"
rc=$?
cleanup_env
exit $rc
