#!/bin/bash
# usage: check.sh PID   (VERIF_SEED, VERIF_TIER from the environment)
# Rebuilds the simulator against /repo's working tree, then searches.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build() { ( cd sim && cargo build --offline --quiet ) > out/build.$1.log 2>&1; }
# should the source of the command-line tool no longer fit into the simulator,
# the commands run through the library only
if ! build "$1" && ! SIM_NO_CLI=1 build "$1"; then
    # a tree that does not compile is not a property violation
    tail -40 out/build.$1.log
    echo "ERROR: the simulator does not build against /repo"
    exit 2
fi
exec "$CARGO_TARGET_DIR/debug/sim" check "$1"
