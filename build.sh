#!/bin/bash
# build.sh [CRATE]: (re)build the harness crate(s) against /repo's working tree; log in build/CRATE.log
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$ROOT/build/target
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$ROOT/build" "$ROOT/evidence" "$ROOT/replays"
CRATES=${1:-harness}
for c in $CRATES; do
  if ! (cd "$ROOT/$c" && cargo build --offline  > "$ROOT/build/$c.log" 2>&1); then
    echo "BUILD-ERROR $c does not build against /repo (see build/$c.log)" >&2
    tail -40 "$ROOT/build/$c.log" >&2
    exit 3
  fi
done
