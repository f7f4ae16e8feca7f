#!/bin/bash
# Builds the harness once, so that later builds only have to look at what changed.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTUP_TOOLCHAIN=nightly-2025-03-01 CARGO_NET_OFFLINE=true
cd harness && cargo build --release --offline --locked
