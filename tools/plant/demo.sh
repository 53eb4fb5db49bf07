#!/bin/bash
# run with cwd = the gdbstub repository; builds and runs the demonstration
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
default = ["std", "alloc"]
std = []
alloc = []
[dependencies]
gdbstub = { path = "$repo", features = ["std"] }
gdbstub_arch = { path = "$repo/gdbstub_arch" }
num-traits = { version = "0.2", default-features = false }
log = "0.4"
EOF
cd "$d" || exit 3
cargo build --offline --quiet --target-dir "$d/target" 2>"$d/err" || { cat "$d/err"; exit 3; }
timeout 120 "$d/target/debug/demo"
