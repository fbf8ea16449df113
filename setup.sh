#!/bin/bash
# Builds the MIR extraction driver (checks build their own copy when it is missing).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
rustc +nightly -O --edition 2021 driver/main.rs -o build/drv.tmp
mv build/drv.tmp build/drv
rustc +nightly --edition 2021 --crate-type lib --crate-name verif_shims -Zmir-opt-level=0 -Zalways-encode-mir \
  -Coverflow-checks=off -Cdebug-assertions=off --emit=metadata driver/shims.rs -o build/libverif_shims.rmeta
