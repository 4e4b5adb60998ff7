#!/bin/bash
# Builds the small program beside this file against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
[profile.dev]
debug = 0
T
cd "$w" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/t" cargo run -q --offline || exit 1
