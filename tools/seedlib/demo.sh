#!/bin/bash
# Builds main.rs, which lies beside this file, against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
crabslab = { path = "$repo/crates/crabslab" }
craballoc = { path = "$repo/crates/craballoc" }
glam = "0.29"
T
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$repo/target"
cd "$d" && cargo build -q --offline 2> "$d/log" || { cat "$d/log"; exit 3; }
timeout 120 "$repo/target/debug/demo"
