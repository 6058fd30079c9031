#!/bin/bash
# usage: replay.sh FILE   re-executes a replay file against /repo's working tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
( cd sim && cargo build --offline --quiet ) || exit 2
exec "$CARGO_TARGET_DIR/debug/sim" replay "$1"
