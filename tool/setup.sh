#!/bin/bash
# Builds the verifier runtime and every contract binary once, so that checks only rebuild what changed.
cd "$(dirname "$0")/.." || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings
for m in sym conc conc64; do
  mkdir -p build/$m build/out
  python3 tool/extract.py $m build/$m || exit 2
  [ -f build/$m/Cargo.lock ] || cp tool/Cargo.lock build/$m/Cargo.lock
  (cd build/$m && cargo build --offline -q -p harness --bins && cargo build --offline -q -p harness --bin p26 --features serde_support) || echo "setup: $m did not build completely"
done
exit 0
