#!/bin/bash
# Run with cwd = the repository; exit 0 if it behaves, nonzero if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$here/rec.rs" "$d/src/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
http-box = { path = "$repo" }
T
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings cargo build --offline --quiet || exit 2
timeout 60 "$d/target/debug/demo"
