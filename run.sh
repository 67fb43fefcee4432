#!/bin/bash
# usage: run.sh ID | run.sh replay FILE | run.sh build
# Builds the model checker with /repo's current working tree and runs one check.
ROOT=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT=$ROOT CARGO_TARGET_DIR=$ROOT/target RUSTUP_TOOLCHAIN=stable
export RUSTC_WRAPPER= RUSTFLAGS="--cfg mortal_verif" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
LOG=$(mktemp) || exit 2
trap 'rm -f "$LOG"' EXIT
build() { (cd "$ROOT/mc" && cargo build --release --offline) >"$LOG" 2>&1; }
# If the crate uses its locks in ways that the hook does not have, do without the hook:
# threads are then switched at system calls only.
if [ -n "$MC_NOHOOK" ] || ! build; then
    export CARGO_TARGET_DIR=$ROOT/target/nohook RUSTFLAGS=
    NOHOOK=1
fi
if [ -n "$NOHOOK" ] && ! build; then
    grep -A12 '^error' "$LOG" >&2 || tail -30 "$LOG" >&2
    echo "build failed" >&2
    exit 2
fi
[ "$1" = build ] && exit 0
"$CARGO_TARGET_DIR/release/mc" "$@"
