#!/bin/bash
# check.sh <property> <quick|thorough> [--case '<case>']
# Builds the harness against /repo's working tree and decides one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
. "$VERIF_DIR/lib.sh"
PROP=$1; TIER=${2:-quick}; shift 2
run_property "$PROP" "$TIER" "$@"
