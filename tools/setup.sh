#!/bin/bash
# Build the harness crates against /repo's working tree (checks rebuild them incrementally).
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true PATH=$PATH:/root/.cargo/bin RUSTFLAGS="--cfg sr_verif"
mkdir -p evidence work
for d in harness harness_wasm harness_term; do
  if [ -f $d/Cargo.toml ]; then (cd $d && cargo build --offline --quiet); fi
done
(cd harness_ops && cargo build --offline --quiet --features plain)
harness_web/build.sh
