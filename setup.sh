#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd sim && { cargo build --offline || SIM_NO_CLI=1 cargo build --offline; }
