#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; export REPO=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sm_algorithm = { path = "$repo/projects/sm-algorithm" }
num = "0.2"
[profile.dev]
opt-level = 1
[workspace]
T
cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$d/target"
cargo build --offline >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
timeout 200 "$d/target/debug/demo"
