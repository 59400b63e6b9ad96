#!/bin/bash
# Builds the model checker from the committed files (offline)
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/../target"
exec cargo build --release --offline -q --bins
