#!/bin/bash
# builds the extractor and the bounded runs once (the checks rebuild what changed)
set -e
cd "$(dirname "$0")"
mkdir -p build replays evidence
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
(cd vx && CARGO_TARGET_DIR=../build/target cargo build --offline -q)
(cd replay && CARGO_TARGET_DIR=../build/rt CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg graphannis_verif -Awarnings" cargo build --offline -q --bins) || echo "replay crate does not build on this tree; the checks report it"
