#!/bin/sh
# builds the engine and runs its self test; the checks rebuild whatever is missing
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
(cd engine && cargo build --offline --release --target-dir ../.build/engine)
.build/engine/release/irsym selftest --seed "${VERIF_SEED:-1}"
