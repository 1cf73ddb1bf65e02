#!/bin/bash
# Build the harness (all check binaries) offline.
cd "$(dirname "$0")" || exit 1
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$PWD/harness/target"
unset CARGO_INCREMENTAL
export RUSTFLAGS="--cfg eucalypt_check --check-cfg=cfg(eucalypt_check) -A warnings"
mkdir -p out evidence "$CARGO_TARGET_DIR"
cd harness && cargo build --release --offline --bins
