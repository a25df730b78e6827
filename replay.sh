#!/bin/bash
# replay.sh <replay file> : re-run one recorded scenario; exit 1 if the violation happens again
f=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$f" | head -1)
setup_env "$id" || exit 2
run_py -m sim.engine replay "$f"
rc=$?
cleanup_env
exit $rc
