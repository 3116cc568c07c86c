#!/bin/bash
# builds the checker once; every check rebuilds what changed in /repo
set -eu
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
(cd symcheck && cargo build --release --offline --locked)
# the bit-precise harnesses: replay binary and a first Kani compilation
(cd kani && cargo build --release --offline --locked)
(cd kani && unset RUSTUP_TOOLCHAIN && cargo kani --only-codegen -Z unstable-options >/dev/null 2>&1) || true
