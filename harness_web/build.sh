#!/bin/bash
# Build /repo's browser crate for wasm32-unknown-unknown with the flags of web/ui's own build.
# Shared memory needs std rebuilt, so crates come from a directory that joins cargo's cache with rust-src's own.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true PATH=$PATH:/root/.cargo/bin
[ -f vendor/.done ] || { python3 vend.py "$PWD/vendor" "$(rustc --print sysroot)"; rm -f "$PWD/Cargo.lock"; }
export RUSTFLAGS="-C target-feature=+atomics,+bulk-memory,+mutable-globals -C link-arg=--shared-memory -C link-arg=--max-memory=1073741824 -C link-arg=--import-memory -C link-arg=--export=__wasm_init_tls -C link-arg=--export=__tls_size -C link-arg=--export=__tls_align -C link-arg=--export=__tls_base"
cargo build --offline --quiet --release --target wasm32-unknown-unknown -Zbuild-std=panic_abort,std
