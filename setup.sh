#!/bin/bash
# Pre-builds the check binaries from /repo's working tree (each check rebuilds by itself whatever is out of date).
VERIF_DIR=$(cd "$(dirname "$0")" && pwd); export VERIF_DIR
. "$VERIF_DIR/lib.sh"
build_all
