#!/bin/bash
# Usage: check.sh <property> quick|thorough   -- builds the harness against /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" MC_ROOT="$PWD"
mkdir -p target
log=target/build-$$.log
build() {
    cd harness && cargo build --release --offline -q --bin mc || return 1
    #the command-line tools themselves
    if [ "$1" = C23 ]; then cargo build --release --offline -q --bins || return 1; fi
}
if ! (build "$1") >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec ./target/release/mc "$1" "$2"
