#!/bin/bash
# Builds main.rs against the crates of the working directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
s=$(mktemp -d)
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$d/main.rs" "$s/src/main.rs"
cp "$r/Cargo.lock" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hcl-rs = { path = "$r/crates/hcl-rs" }
hcl-edit = { path = "$r/crates/hcl-edit" }
hcl-primitives = { path = "$r/crates/hcl-primitives", features = ["serde"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[workspace]
T
cd "$s" || exit 3
CARGO_TARGET_DIR="$s/target" cargo build -q --offline || exit 3
./target/debug/demo
