#!/bin/bash
# facts.sh OUT pkg...   Dumps MIR facts of repository crates (tree $SIG_REPO, default /repo) into OUT.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); OUT=${1:-$V/build/facts}; shift || true
REPO=${SIG_REPO:-/repo}; WS=${SIG_WS:-$V/build/ws}
ALL=(models specs_mp specs_core specs_guest specs_host ssz-multiproofs z-core beacon_guest chainspec host)
PK=("$@"); [ ${#PK[@]} = 0 ] && for p in "${ALL[@]}"; do [ -d "$V/specs/${p#specs_}" ] || [ "$p" = "${p#specs_}" ] && PK+=("$p"); done
mkdir -p "$OUT" "$WS"; OUT=$(cd "$OUT" && pwd); WS=$(cd "$WS" && pwd)
exec 9>"$WS/.lock"; flock 9
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
if [ ! -x "$V/driver/target/debug/sigfacts" ] || [ -n "$(find "$V/driver/src" -newer "$V/driver/target/debug/sigfacts")" ]; then (cd "$V/driver" && cargo +nightly build --offline -q) || exit 3; fi
python3 "$V/tools/mkws.py" "$REPO" "$WS" || exit 3
export RUSTC_WORKSPACE_WRAPPER=$V/driver/target/debug/sigfacts SIGFACTS_OUT=$OUT
export SIGFACTS_CRATES=ssz_multiproofs,z_core,chainspec,beacon_guest,host,mainnet,sepolia,test_harness,zkasper_cli,gen_gindices,models,specs_mp,specs_core,specs_guest,specs_host
cd "$WS"
for p in "${ALL[@]}"; do rm -rf "$WS/target/facts/debug/build/$p"; done
rm -f "$OUT"/*.json
A=(); for p in "${PK[@]}"; do A+=(-p "$p"); done
CARGO_TARGET_DIR=target/facts cargo +nightly check --offline --keep-going "${A[@]}" 9>&-
