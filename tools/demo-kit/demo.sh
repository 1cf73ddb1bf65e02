#!/bin/bash
# Builds a small program against the library just built and runs the cases beside this file.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/repo/target CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp /opt/vp/overlay/Cargo.lock "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
eucalypt = { path = "/opt/vp/overlay" }
T
cd "$work" || exit 3
cargo build --offline -q >"$work/log" 2>&1 || { tail -20 "$work/log"; exit 3; }
cp /repo/target/debug/demo "$work/demo-bin"
cd "$work" && timeout 200 ./demo-bin "$here"
