#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory and runs it; pest and the
# three libraries that are not installed come from deps.tar.gz.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; export REPO=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/.cargo" "$d/run" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/lock" "$d/Cargo.lock" && tar -xzf "$here/deps.tar.gz" -C "$d" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sm_algorithm = { path = "$repo/projects/sm-algorithm" }
sm_parser = { path = "$repo/projects/sm-parser" }
sm_ast = { path = "$repo/projects/sm-ast" }
sm_playground = { path = "$repo/projects/sm-playground" }
num = "0.2"
[patch.crates-io]
bigdecimal = { path = "$d/shims/bigdecimal" }
text-utils = { path = "$d/shims/text-utils" }
wolfram_wxf = { path = "$d/shims/wolfram_wxf" }
[workspace]
T
cat > "$d/.cargo/config.toml" <<T
[source."git+https://github.com/pest-parser/pest.git"]
git = "https://github.com/pest-parser/pest.git"
replace-with = "vendored-pest"
[source.vendored-pest]
directory = "$d/vendor"
T
cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$d/target"
cargo build --offline >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
cd "$d/run" && timeout 200 "$d/target/debug/demo"
