#!/bin/bash
# dev.sh PROP FEATURES [ONLY]: run the analysis verbosely on one property
V=$(cd "$(dirname "$0")/.." && pwd)
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUST_MIN_STACK=2000000000
(cd $V/vbai && cargo +nightly build --release --offline -q) || exit 2
cd $V/witness
T=$V/target/dev
mkdir -p $T
export CARGO_TARGET_DIR=$T RUSTC_WORKSPACE_WRAPPER=$V/vbai/target/release/vbai RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Awarnings"
cargo +nightly clean --offline -q -p witness 2>/dev/null
VBAI_VERBOSE=1 VBAI_PROP=$1 VBAI_ONLY=$3 cargo +nightly check --offline -q --features "$2" 2>&1
