#!/bin/bash
# Nothing is installed: every check builds what it needs.  This only proves the pieces are there.
cd "$(dirname "$0")" || exit 1
. ./env.sh
setup_env C11 || exit 1
run_py -c 'import sim.boot' || exit 1
cleanup_env
echo ok
