#!/bin/bash
# builds the engine and the harness (native binary + LLVM IR of the harness linked with /repo's crate)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTC_WRAPPER CARGO_TARGET_DIR
mkdir -p build
( cd engine && cargo build --offline --release --target-dir ../build/engine -q ) 
( cd harness &&
  RUSTFLAGS="-Awarnings -C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-inline-threshold=4000 -C llvm-args=-inlinehint-threshold=4000 -C llvm-args=-inline-instr-cost=1000" \
  cargo rustc --offline --release -q --target-dir ../build/harness -- --emit=llvm-ir,link )
cp "$(ls -t build/harness/release/deps/vh-*.ll | head -1)" build/vh.ll
cp build/harness/release/vh build/vh
