#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/pcdemo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<T
[package]
name = "pcdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
probabilistic-collections = { path = "$repo"FEATURES }
siphasher = "0.3"
bincode = "1"
[profile.dev]
debug = false
opt-level = 1
T
cd "$tmp" || exit 1
export CARGO_TARGET_DIR=$tmp/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --offline --quiet 2> build.log || { cat build.log; exit 3; }
timeout 120 ./target/debug/pcdemo
