#!/bin/bash
# Builds every driver once (checks rebuild what they need themselves) and checks the tools are there.
cd "$(dirname "$0")/harness" || exit 1
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/../target"
export RUSTFLAGS=-Awarnings
cargo build --offline --locked --quiet --bins || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
