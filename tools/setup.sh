#!/bin/bash
# Build the symbolic executor and the std for symbolic execution (each check also does this when needed).
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS= RUSTC_WRAPPER=
(cd wsym && CARGO_TARGET_DIR="$PWD/../.build/wsym" cargo build --release --offline) &
python3 tools/sysroot.py .build/std
wait %1
node --version
