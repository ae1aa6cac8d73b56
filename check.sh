#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds what the property needs from /repo's working tree
# and decides the property. Exit 0: held on everything explored; 1: VIOLATION printed; 3: no answer.
cd /verif || exit 3
mkdir -p target work evidence replays
export VERIF_TIER="${2:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
exec 9> target/.build.lock
flock 9
./build.sh "$1" || { echo "build failed" >&2; exit 3; }
flock -u 9
exec 9>&-
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target
exec target/debug/vh check "$1"
