#!/bin/bash
# check.sh ID: builds the simulation from /repo's working tree and runs the simulated search for one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check.
# check.sh --build: builds only.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
mkdir -p out || exit 2
if ! (cd sim && cargo build --release --offline --quiet) >"out/build.$$" 2>&1; then
    cat "out/build.$$"; rm -f "$PWD/out/build.$$"
    echo "error: the simulation does not build"; exit 2
fi
rm -f "$PWD/out/build.$$"
[ "$1" = --build ] && exit 0
exec ./sim/target/release/advsim check "$1"
