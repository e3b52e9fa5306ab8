#!/bin/bash
# Builds the extractor and the harness into /verif/target (offline).
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTUP_TOOLCHAIN=1.88-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
(cd vx && cargo build --offline -q)
(cd harness && cargo build --offline -q)
