#!/bin/bash
# run with cwd at the repository: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" && cp "$here/Cargo.lock" "$tmp/Cargo.lock" || exit 1
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "h"
version = "0.1.0"
edition = "2021"
[dependencies]
lfa = { path = "$repo", features = ["serde"] }
ndarray = { version = "0.15", features = ["serde-1"] }
spaces = { version = "5.0", features = ["serialize"] }
serde = "1.0"
[workspace]
EOF
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo run -q --offline
