#!/bin/bash
# Builds the program beside this file against the crates of the current directory (the repository) and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/scratch" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
indxr = { path = "$repo/indxr" }
fall_gen = { path = "$repo/fall/gen" }
fall_tree = { path = "$repo/fall/tree" }
fall_parse = { path = "$repo/fall/parse" }
fall_editor = { path = "$repo/fall/editor" }
fall_test = { path = "$repo/fall/test" }
lang_fall = { path = "$repo/lang/fall" }
lang_rust = { path = "$repo/lang/rust" }
lang_json = { path = "$repo/lang/json" }
[profile.dev]
debug = 0
T
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 RUSTC=/opt/vp/bin/rustc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_INCREMENTAL
export CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q 2> "$d/build.log" || { tail -20 "$d/build.log" | cut -c1-300; exit 2; }
export SCRATCH="$d/scratch" TMPDIR="$d/scratch" REPO="$repo" HERE="$here"
timeout 200 "$d/target/debug/demo"
