#!/bin/bash
# builds the harness of the expr! macro: /repo's macro crate as an ordinary library
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTC_WRAPPER CARGO_TARGET_DIR
mkdir -p ../build
( cd ../engine && cargo build --offline --release --target-dir ../build/engine -q )
python3 prepare.py /repo/macros/src ../build/macro_src
RUSTFLAGS="-Awarnings -C no-vectorize-loops -C no-vectorize-slp" \
  cargo rustc --offline --release -q --target-dir ../build/macroh -- --emit=llvm-ir,link
cp "$(ls -t ../build/macroh/release/deps/mh-*.ll | head -1)" ../build/mh.ll
cp ../build/macroh/release/mh ../build/mh
