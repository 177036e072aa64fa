#!/bin/bash
# Builds demo.rs (with topics.rs) against the tree in the current directory, in a
# scratch directory, and runs it: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 99
trap 'find "$w" -delete' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/server-lib/src/topics.rs" "$w/src/topics.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
apiformes-packet = { path = "$repo/packet" }
bytes = "1"
futures = "0.3"
async-recursion = "0.3"
bitflags = "1.3"
tracing = "0.1"
tokio = { version = "1", features = ["net", "io-util", "sync", "macros", "rt", "rt-multi-thread", "time"] }
[workspace]
E
cd "$w" || exit 99
CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log" || { tail -5 "$w/log"; exit 98; }
timeout 200 "$w/target/debug/demo"
