#!/bin/bash
# Runs main.rs beside this script against the rpds in the current directory.
# Exit 0: it behaves as it should.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$work/target"
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[workspace]

[dependencies]
rpds = { path = "$repo", features = ["serde", "rayon"] }
archery = "1.2.2"
serde = { version = "1.0.228", default-features = false }
serde_json = "1.0.150"
rayon = "1.12.0"

[profile.dev]
debug = false
EOF
cd "$work" || exit 2
cargo build --offline -q || exit 2
timeout 120 "$work/target/debug/demo"
