#!/bin/bash
# Checks the tools and builds the harness once; every check builds it again from /repo's working tree.
set -e
cd "$(dirname "$0")"
command -v tlc cargo python3 >/dev/null
mkdir -p build replays evidence
CARGO_TARGET_DIR=build/target RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true cargo build --release --offline --quiet --manifest-path harness/Cargo.toml
