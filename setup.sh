#!/bin/bash
# Builds the monitor (both profiles) and warms the sanitizer builds of C30.
# Only the monitor builds are needed; the checks build what is missing.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target/monitor"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cd "$here/monitor" || exit 1
cargo build --offline -q 2>/dev/null || exit 1
cargo build --offline -q --release 2>/dev/null || exit 1
echo "monitor built"
