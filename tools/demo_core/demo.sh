#!/bin/bash
# Builds a small program against /repo's core and ssz-multiproofs (with toy stand-ins for the dependencies that are not
# available offline) in a scratch directory and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export REPO="$R"
T=$(mktemp -d)
trap '/bin/rm -rf "$T"' EXIT
mkdir -p "$T/mp" "$T/core" "$T/demo/src"
cp -r "$D/shims" "$T/shims"
cat > "$T/Cargo.toml" <<EOF
[workspace]
resolver = "2"
members = ["mp", "core", "demo"]
EOF
cat > "$T/mp/Cargo.toml" <<EOF
[package]
name = "ssz-multiproofs"
version = "1.0.0"
edition = "2024"
[lib]
path = "$R/ssz-multiproofs/src/lib.rs"
[features]
builder = []
progress-bar = []
[dependencies]
serde = { version = "1", features = ["derive"] }
sha2 = { version = "0.10.9", default-features = false }
alloy-primitives = { version = "1", features = ["serde"] }
bitvec = { version = "1", features = ["serde"] }
thiserror = "2"
tracing = "0.1"
itertools = "0.14"
rayon = "1"
smallvec = "1"
ssz_rs = { path = "../shims/ssz_rs" }
EOF
cat > "$T/deps" <<EOF
alloy-primitives = { version = "1", features = ["serde"] }
itertools = "0.14"
serde = { version = "1", features = ["derive"] }
sha2 = { version = "0.10.9", default-features = false }
thiserror = "2"
tracing = "0.1"
ssz-multiproofs = { path = "../mp", features = ["builder"] }
alloy-sol-types = { path = "../shims/alloy-sol-types" }
beacon_types = { path = "../shims/beacon_types", features = ["legacy-arith"] }
bls = { path = "../shims/bls" }
ethereum_ssz = { path = "../shims/ethereum_ssz" }
safe_arith = { path = "../shims/safe_arith" }
serde_arrays = { path = "../shims/serde_arrays" }
serde_with = { path = "../shims/serde_with" }
swap_or_not_shuffle = { path = "../shims/swap_or_not_shuffle" }
tree_hash = { path = "../shims/tree_hash" }
EOF
cat - "$T/deps" > "$T/core/Cargo.toml" <<EOF
[package]
name = "z-core"
version = "1.0.0"
edition = "2024"
[lib]
path = "$R/core/src/lib.rs"
[dependencies]
EOF
cat - "$T/deps" > "$T/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "1.0.0"
edition = "2024"
[dependencies]
z-core = { path = "../core" }
ssz_rs = { path = "../shims/ssz_rs" }
bitvec = { version = "1", features = ["serde"] }
postcard = { version = "1.1.1", features = ["use-std"] }
EOF
cp "$D/main.rs" "$D/kit.rs" "$T/demo/src/"
if [ -f "$D/demo.lock" ]; then cp "$D/demo.lock" "$T/Cargo.lock"; fi
cd "$T"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 1>&2
if [ -n "$SAVE_LOCK" ]; then cp Cargo.lock "$SAVE_LOCK"; fi
timeout 120 "$T/target/debug/demo"
