#!/bin/bash
# check.sh <property> [quick|thorough]   (VERIF_SEED: seed of the workloads, default 1)
# Builds the monitor against the current /repo and runs one property's check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$seed" in ''|*[!0-9]*) seed=1 ;; esac
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target/monitor"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$here/evidence" "$here/run"
log="$here/run/build-$id.$$.log"
cd "$here/monitor" || exit 2
cargo build --offline -q >"$log" 2>&1 & b=$!
cargo build --offline -q --release >"$log.2" 2>&1 & r=$!
wait "$b"; rb=$?
wait "$r"; rr=$?
if [ $rb -ne 0 ] || [ $rr -ne 0 ]; then
    echo "$id: the monitor does not build against /repo" >&2
    for f in "$log" "$log.2"; do tail -n 40 "$f" >&2; done
    exit 2
fi
rm -f "$log" "$log.2"
grep "^open: property=$id " "$here/KNOWN_FINDINGS.txt" 2>/dev/null | sed 's/^open: /KNOWN-FINDING: /'
exec "$CARGO_TARGET_DIR/debug/ecmon" run prop="$id" tier="$tier" seed="$seed" alt="$CARGO_TARGET_DIR/release/ecmon"
