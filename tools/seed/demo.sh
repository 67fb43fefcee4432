#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it:
# exit 0 if the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src" && cp "$HERE"/*.rs "$D/src/" && mv "$D/src/demo.rs" "$D/src/main.rs" || exit 2
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
mortal = { path = "$REPO" }
libc = "0.2"
[profile.dev]
debug = false
[workspace]
T
cp "$REPO/Cargo.lock" "$D/" || exit 2
export CARGO_TARGET_DIR=$D/target
cd "$D" || exit 2
if ! cargo build -q --offline >"$D/log" 2>&1; then cat "$D/log"; exit 2; fi
timeout -k 5 60 "$D/target/debug/demo"
