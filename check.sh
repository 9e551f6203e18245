#!/bin/bash
# check.sh <property> [quick|thorough] [engine arguments...]: build the property's check against
# /repo's working tree and run it.  Exit 0: held; 1: VIOLATION line; 2: no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
export VERIF_DIR="$here" VERIF_TIER="$tier" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS
. "$here/build.sh" --bin "$bin" || { echo "$id: no verdict: the check does not build against /repo" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$bin" --tier "$tier" --seed "${VERIF_SEED:-1}" "$@"
