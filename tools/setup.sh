#!/bin/bash
# Builds the harness once (each check rebuilds it from /repo's current tree anyway).
cd "$(dirname "$0")/.." || exit 1
RUSTFLAGS="--cfg verif_hooks -Awarnings" CARGO_TARGET_DIR="$PWD/harness/target" \
    cargo build --offline --quiet --manifest-path harness/Cargo.toml
