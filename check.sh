#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Rebuilds the simulator from /repo's working tree and runs one check.
cd /verif || exit 2
exec 9>/verif/target/.check.lock 2>/dev/null || { mkdir -p /verif/target && exec 9>/verif/target/.check.lock; }
flock 9
build() { # profile, extra arguments
    # never trust timestamps: the library is always compiled afresh
    find "/verif/target/$1/.fingerprint" -maxdepth 1 -name 'sudoku-*' -exec rm -rf {} + 2>/dev/null
    local out
    if ! out=$(cd /verif/sim && cargo build --offline --locked --profile "$1" $2 2>&1); then
        echo "$out" | tail -40
        echo "ERROR: the $1 build failed"
        exit 2
    fi
}
instrumented() {
    export SIM_BUILD=$1 RUSTC_WRAPPER=/verif/tools/race-rustc.sh
    build "$1" "--features $1"
    unset SIM_BUILD RUSTC_WRAPPER
}
main=release
case "$1" in
T01)
    main=race
    instrumented race
    instrumented statics
    ;;
C01)
    build release ""
    build shipped "--features unchecked"
    ;;
*) build release "" ;;
esac
flock -u 9
exec "/verif/target/$main/sim" check "$1" --tier "$2"
