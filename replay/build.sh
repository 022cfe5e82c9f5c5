#!/bin/sh
# builds the replay harness against /repo's current tree, with the verification hooks on
cd "$(dirname "$0")/.." && mkdir -p build && RUSTFLAGS="--cfg hnsw_verif -Awarnings" CARGO_TARGET_DIR=build/replay exec cargo build --offline --quiet --manifest-path replay/Cargo.toml
