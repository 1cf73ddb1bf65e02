#!/bin/bash
# run.sh PROP [--replay FILE] — build what the property's check needs from
# /repo's working tree, then run it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
unset CARGO_INCREMENTAL
export RUSTFLAGS="--cfg eucalypt_check --check-cfg=cfg(eucalypt_check) -A warnings"
prop="$1"
bins=$(grep -E "^$prop " props.map | cut -d' ' -f2)
bin=${bins%%,*}
if [ -z "$bin" ]; then echo "unknown property $prop" >&2; exit 2; fi
mkdir -p out evidence
log=$(mktemp)
if ! (cd harness && flock target/.verif-lock cargo build --release --offline --bin ${bins//,/ --bin } --bin xtask) >"$log" 2>&1; then
  grep -E "^error" -A6 "$log" | head -60 >&2
  echo "build failed" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
# the compiled prelude image, from this tree's prelude and compiler
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/lib" "$scratch/src/eval"
: > "$scratch/Cargo.toml"
ln -s /repo/lib/prelude.eu "$scratch/lib/prelude.eu"
ln -s /repo/src/eval/intrinsics.rs "$scratch/src/eval/intrinsics.rs"
ln -s /repo/build-meta.yaml "$scratch/build-meta.yaml"
if (cd "$scratch" && "$CARGO_TARGET_DIR/release/xtask" prelude-compile) >"$scratch/log" 2>&1; then
  export EU_CHECK_BLOB="$scratch/lib/prelude.blob"
else
  echo "prelude-compile failed:" >&2
  tail -5 "$scratch/log" >&2
fi
export VERIF_SCRATCH="$scratch"
export EU_BIN="$CARGO_TARGET_DIR/release/eu"
"$CARGO_TARGET_DIR/release/$bin" "$@"
