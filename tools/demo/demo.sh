#!/bin/bash
# Builds main.rs against the relp of the working directory, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2025-03-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
export PATH=/root/.cargo/bin:$PATH
mkdir -p "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
relp = { path = "$repo" }
relp-num = "=0.1.13"
num-traits = "=0.2.19"
EOF
cp "$here/Cargo.lock" "$dir/Cargo.lock" 2>/dev/null || cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cd "$dir" || exit 1
cargo build --offline > build.log 2>&1 || { tail -20 build.log; exit 3; }
timeout 60 "$dir/target/debug/demo"
