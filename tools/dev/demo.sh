#!/bin/bash
# Builds a small program against the tree in the current directory and runs
# the demonstration with it; everything is written to a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/probe/src" "$w/demo"
cp "$here/probe.rs" "$w/probe/src/main.rs"
cp "$here"/*.py "$w/demo/"
cat > "$w/probe/Cargo.toml" <<EOF
[package]
name = "probe"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "probe"
path = "src/main.rs"
[[bin]]
name = "post"
path = "$repo/src/main.rs"
[dependencies]
sim = { path = "$repo/sim" }
clap = { version = "4.5.4", features = ["derive"] }
[profile.dev]
debug = false
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/probe/Cargo.lock"
export CARGO_TARGET_DIR=${PROBE_TARGET:-$w/target} CARGO_NET_OFFLINE=true
cargo build --quiet --offline --manifest-path "$w/probe/Cargo.toml" 2>&1
cp "$CARGO_TARGET_DIR/debug/probe" "$CARGO_TARGET_DIR/debug/post" "$w/demo/"
cd "$w/demo"
PYTHONDONTWRITEBYTECODE=1 python3 demo.py
