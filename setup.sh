#!/bin/bash
# Builds the exploration engine once (every check rebuilds what it needs from /repo itself).
set -e
cd "$(dirname "$0")/symx"
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build --offline --quiet 2>/dev/null || cargo build --offline
./target/debug/symx list --property P01 --tier quick | head -3
cd ../threads
cargo rustc --release --offline --quiet --features native --crate-type cdylib --target-dir target/native 2>/dev/null || cargo rustc --release --offline --features native --crate-type cdylib --target-dir target/native
