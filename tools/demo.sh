#!/bin/bash
# Builds a small program against /repo's current tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
sed "s#^OVER = .*#OVER = \"$w/overlay\"#" "$here/overlay_tool.py" > "$w/overlay.py"
mkdir -p "$w/overlay" "$w/d/src"
python3 "$w/overlay.py" || exit 3
cp "$here"/*.rs "$w/d/src/"
cp "$w/overlay/Cargo.lock" "$w/d/Cargo.lock"
cat > "$w/d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
eucalypt = { path = "$w/overlay" }
serde_json = "1"
lru = "*"
regex = "1"
[profile.dev]
debug = 0
T
cd "$w/d" && cargo build --offline --target-dir "$w/t" > "$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
cd "$w" && timeout 100 "$w/t/debug/demo"
