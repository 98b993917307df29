#!/bin/bash
# check.sh ID                  run the check of property ID (VERIF_SEED, VERIF_TIER)
# check.sh --replay ID FILE    evaluate one recorded case
# Exit 0: held; 1: violated (VIOLATION line); anything else: the check could not run.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
replay=()
if [ "${1:-}" = --replay ]; then
    id="$2"; replay=(--replay "$(realpath "$3")")
else
    id="$1"
fi
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
crate=harness
[ "$id" = C23 ] && crate=typecheck
[ "$id" = C23 ] || [ -f "$here/harness/src/bin/$bin.rs" ] || { echo "no check for $id" >&2; exit 2; }
cd "$here/$crate" || exit 2
# always rebuild the library from the working tree of /repo
cargo clean --offline --release -p cam-geom >/dev/null 2>&1
# The check does not build although the library does: if a client program that
# uses only what the property promises (interface/) is refused by the compiler,
# the property is violated; otherwise the check has no answer.
interface() {
    local out="$VERIF_DIR/replays/$id-interface.txt"
    case "$id" in C19|C29) bin=c18 ;; esac
    [ -f "$here/interface/src/bin/$bin.rs" ] || return 2
    cd "$here/interface" || return 2
    cargo check --offline --release -p cam-geom >/dev/null 2>&1 || return 2
    mkdir -p "$VERIF_DIR/replays"
    cargo check --offline --release --bin "$bin" >"$out" 2>&1 && { echo "$id: the client program interface/src/bin/$bin.rs compiles"; return 0; }
    cat "$out"
    echo "$id: a client program that the property permits is refused by the compiler: interface/src/bin/$bin.rs"
    echo "VIOLATION property=$id replay=$out"
    return 1
}
case "${replay[1]:-}" in *-interface.txt) interface; exit ;; esac
log="$(mktemp)"
if ! cargo build --offline --release --bin "$bin" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "$id: the check did not build" >&2
    interface && exit 2
    exit
fi
rm -f "$log"
limit=840
[ "$VERIF_TIER" = thorough ] && limit=14400
exec timeout -k 10 "$limit" "$CARGO_TARGET_DIR/release/$bin" "${replay[@]}"
