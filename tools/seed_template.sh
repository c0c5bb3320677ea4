#!/bin/bash
# Runs demo.rs (beside this file) against the pdf-writer in the current directory; everything it writes is in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
pdf-writer = { path = "$repo" }
[profile.dev]
opt-level = 1
[workspace]
TOML
cd "$scratch" || exit 2
CARGO_TARGET_DIR="$scratch/target" timeout 240 cargo run --offline -q
