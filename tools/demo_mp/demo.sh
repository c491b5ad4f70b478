#!/bin/bash
# Builds a small program against /repo's ssz-multiproofs in a scratch directory and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap '/bin/rm -rf "$T"' EXIT
mkdir -p "$T/mp" "$T/demo/src"
cat > "$T/Cargo.toml" <<EOF
[workspace]
resolver = "2"
members = ["mp", "demo"]
EOF
cat > "$T/mp/Cargo.toml" <<EOF
[package]
name = "ssz-multiproofs"
version = "1.0.0"
edition = "2024"
[lib]
path = "$R/ssz-multiproofs/src/lib.rs"
[features]
builder = []
progress-bar = []
[dependencies]
serde = { version = "1", features = ["derive"] }
sha2 = { version = "0.10.9", default-features = false }
alloy-primitives = { version = "1", features = ["serde"] }
bitvec = { version = "1", features = ["serde"] }
thiserror = "2"
tracing = "0.1"
itertools = "0.14"
EOF
cat > "$T/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "1.0.0"
edition = "2024"
[dependencies]
ssz-multiproofs = { path = "../mp" }
serde = { version = "1", features = ["derive"] }
bitvec = { version = "1", features = ["serde"] }
sha2 = { version = "0.10.9", default-features = false }
postcard = { version = "1.1.1", features = ["use-std"] }
EOF
cp "$D/main.rs" "$T/demo/src/main.rs"
cp "$D/demo.lock" "$T/Cargo.lock"
cd "$T"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 1>&2
timeout 60 "$T/target/debug/demo"
