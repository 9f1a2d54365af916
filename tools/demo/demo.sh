#!/bin/bash
# builds and runs demo.rs against the tree in the current directory; exit 0 when it behaves
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here"/*.rs "$t/src/"
cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "src/demo.rs"
[dependencies]
wz_reader = { path = "$repo", features = ["json"] }
serde_json = "1.0"
flate2 = { version = "1.1.4", default-features = false, features = ["zlib-ng"] }
image = { version = "0.25.0", default-features = false }
T
cd "$t" || exit 2
export DEMO_SCRATCH="$t" DEMO_FILES="$here"
cargo build -q --offline --target-dir "$repo/target/demo" || exit 3
timeout 120 "$repo/target/demo/debug/demo"
