#!/bin/bash
# run with cwd = the repository: builds a small program against it and runs it
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$H/main.rs" "$T/src/main.rs" || exit 3
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
graphviz-rust = { path = "$R" }
TOML
cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run -q --offline
