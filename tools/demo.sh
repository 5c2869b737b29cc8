#!/bin/bash
# Builds the program beside this script against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'case "$work" in /tmp/demo.*) rm -rf "$work";; esac' EXIT
mkdir "$work/src" && cp "$here"/*.rs "$work/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tokenizer = { path = "$repo/tokenizer" }
parser = { path = "$repo/parser" }
tokenizer_generator = { path = "$repo/tokenizer_generator" }
parser_generator = { path = "$repo/parser_generator" }
[[bin]]
name = "demo"
path = "src/main.rs"
[[bin]]
name = "calc"
path = "$repo/example/src/main.rs"
[workspace]
TOML
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0
cd "$work" || exit 1
timeout 200 cargo build -q --offline || exit 1
timeout 60 "$work/target/debug/demo" || exit 1
exit 0
