#!/bin/bash
# Build everything once, so that later checks in the same tree are fast.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence" "$here/replays"
cd "$here/harness" && CARGO_TARGET_DIR="$here/target" cargo build --offline --release --bins || exit 1
(cd "$here/typecheck" && CARGO_TARGET_DIR="$here/target" cargo build --offline --release) || exit 1
(cd "$here/typecheck/stub" && CARGO_TARGET_DIR="$here/target/stub" cargo check --offline) || exit 1
for f in "" alloc; do
    (cd "$here/bare" && CARGO_TARGET_DIR="$here/target/bare" cargo build --offline --features "$f") || exit 1
done
cd "$here/worker" || exit 1
pids=()
for f in "" alloc std serde "std serde"; do
    (
        export CARGO_TARGET_DIR="$here/target/w-${f// /-}"
        cargo build --offline --features "$f" && cargo build --offline --release --features "$f"
    ) &
    pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
