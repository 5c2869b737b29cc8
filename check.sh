#!/bin/bash
# check.sh PROPERTY quick|thorough: build from /repo's working tree, then run the simulator.
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1
T=${2:-${VERIF_TIER:-quick}}
export SIM_VERIF=$V
export CARGO_NET_OFFLINE=true
mkdir -p target evidence || exit 2
run() { # quietly, showing the end of the log on failure
    if ! "$@" >target/build.$$.log 2>&1; then
        tail -40 target/build.$$.log >&2
        rm -f target/build.$$.log
        echo "check.sh: build failed: $*" >&2
        exit 2
    fi
    rm -f target/build.$$.log
}
run cargo build --release --offline --manifest-path sim/Cargo.toml --target-dir target/sim
if [ "$P" = all ] || [ "$P" = C08 ] || [ "$P" = C09 ]; then
    run gcc -O1 -fPIC -shared -Wall -o target/shim.so shim/shim.c
fi
if [ "$P" = all ] || [ "$P" = C09 ]; then
    export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
    run cargo build --release --offline --manifest-path /repo/example/Cargo.toml --target-dir target/example
    unset CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS
fi
if [ "$P" = all ] || [ "$P" = C08 ]; then
    run cargo build --release --offline --manifest-path macrohost/Cargo.toml --target-dir target/macrohost
    cargo build --release --offline --manifest-path macrohost/Cargo.toml --target-dir target/macrohost --message-format=json >target/macrohost.$$.json 2>/dev/null || exit 2
    mv target/macrohost.$$.json target/macrohost.json
fi
[ "$P" = all ] && exit 0
exec target/sim/release/sim check "$P" "$T"
