#!/bin/bash
# builds the extractor and the bounded harness (every check also builds what it needs itself)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
unset RUSTC_WRAPPER CARGO_TARGET_DIR RUSTFLAGS
(cd vx && cargo build --release --offline --target-dir ../target/vx) || exit 1
(cd harness && RUSTFLAGS=-Awarnings cargo build --offline --target-dir ../target/harness) || exit 1
verus --version
