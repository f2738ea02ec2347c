#!/bin/bash
# usage: check.sh <property> quick|thorough [case]   -- builds the explorer against /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL RUST_BACKTRACE
log=$(mktemp)
if ! cargo build --offline --locked --manifest-path mc/Cargo.toml --target-dir mc/target >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "the explorer does not build against /repo"
    exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
exec mc/target/debug/mc run "$1" "${2:-${VERIF_TIER:-quick}}" "$3"
