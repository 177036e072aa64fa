#!/bin/bash
# Builds demo.rs against the tree in the current directory (in a scratch
# directory) and runs it: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 99
trap 'find "$w" -delete' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
apiformes-packet = { path = "$repo/packet" }
bytes = "1"
[workspace]
T
cd "$w" || exit 99
CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log" || { tail -5 "$w/log"; exit 98; }
timeout 120 "$w/target/debug/demo"
