#!/bin/bash
# Builds what a property's check needs from /repo's working tree: the harness, and for some
# properties tools of /repo that it runs. Argument: a property, or "all".
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
mkdir -p /verif/target
log=/verif/target/build.log.$$
trap 'rm -f $log' EXIT
quietly() { "$@" > $log 2>&1 || { cat $log; exit 3; }; }
cd /verif/harness || exit 3
quietly cargo build --offline --quiet
cd /repo || exit 3
packages=
case "$1" in P17|P26|all) packages="$packages -p styx-cli" ;; esac
case "$1" in P18|all) packages="$packages -p styx-embed" ;; esac
case "$1" in P21|all) packages="$packages -p styx-ffi" ;; esac
[ -z "$packages" ] || quietly cargo build --offline --locked --quiet $packages
case "$1" in P19|all)
    mkdir -p /verif/target/ports/js
    cd /verif/drivers/go && quietly env GOFLAGS=-mod=mod GOCACHE=/verif/target/gocache go build -o /verif/target/ports/godriver .
    cd /repo/implementations/styx-js && quietly $TSC --outDir /verif/target/ports/js
    echo '{"type":"module"}' > /verif/target/ports/js/package.json ;;
esac
case "$1" in P21|all)
    mkdir -p /verif/target/ffi
    quietly gcc -O1 -g -Wall -Wextra -I/repo/crates/styx-ffi/include /verif/drivers/c/driver.c -o /verif/target/ffi/driver -L/verif/target/debug -lstyx_ffi -Wl,-rpath,/verif/target/debug ;;
esac
exit 0
