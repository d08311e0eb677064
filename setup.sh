#!/bin/bash
# Builds the extractor and the harnesses (offline).
cd "$(dirname "$0")" || exit 1
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir -p build
(cd tools/extract && CARGO_TARGET_DIR=$PWD/../../build/extract cargo build --offline --release --quiet) || exit 1
for h in harness/*/; do
  n=$(basename "$h"); [ -d "$h/src" ] || continue
  (cd "$h" && RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=/verif/build/$n cargo build --offline --quiet) || exit 1
done
