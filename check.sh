#!/bin/bash
# check.sh ID: build the harness against /repo's current tree and check one property.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTUP_TOOLCHAIN=nightly-2025-03-01 CARGO_NET_OFFLINE=true
target=harness/target
build() {
    local log
    log=$(mktemp)
    if (cd harness && cargo build --profile "$1" --offline --locked) >"$log" 2>&1; then
        target=harness/target
    # The hook in the code may not fit a change of the code around it: the rest works without it
    elif (cd harness && RUSTFLAGS="--cfg relp_verif_without_hook" CARGO_TARGET_DIR=target/without-hook \
            cargo build --profile "$1" --offline --locked) >>"$log" 2>&1; then
        target=harness/target/without-hook
    else
        tail -n 60 "$log"; rm -f "$log"
        echo "harness does not build"; exit 2
    fi
    rm -f "$log"
}
export VERIF_DIR=$PWD
if [ "$VERIF_TIER" = thorough ]; then
    # also as users run it: without debug assertions
    build plain
    ./$target/plain/harness check "$1" || exit $?
fi
build release
exec ./$target/release/harness check "$1"
