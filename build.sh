#!/bin/bash
# build.sh <cargo build arguments>: build the harness against /repo's working tree.
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$root/harness/target"
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
# cargo decides by modification times, which copying and patching trees can get wrong: when the
# sources' content differs from what was last built, rebuild the library whatever the times say.
stamp="$CARGO_TARGET_DIR/repo.sha256"
now="$(cd /repo && find Cargo.toml src build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
  (cd "$root/harness" && cargo clean -q --offline -p hash-trie 2>/dev/null)
  rm -f "$stamp"
fi
log="$CARGO_TARGET_DIR/build.log"
if (cd "$root/harness" && cargo build -q --offline --locked "$@") >"$log" 2>&1; then
  echo "$now" > "$stamp"
else
  grep -E -A12 '^error' "$log" >&2 || tail -20 "$log" >&2
  return 1 2>/dev/null || exit 1
fi
# The program that P30 has watched: once with the address sanitizer, once under Miri.
memory() {
  local T="$CARGO_TARGET_DIR/memory" log="$CARGO_TARGET_DIR/memory.log"
  mkdir -p "$T"
  cd "$root/memory" || return 1
  if [ "$(cat "$T/repo.sha256" 2>/dev/null)" != "$now" ]; then
    cargo clean -q --offline --target-dir "$T" 2>/dev/null
    mkdir -p "$T"
  fi
  if CARGO_TARGET_DIR="$T" RUSTFLAGS="-Awarnings -Zsanitizer=address" \
    cargo +nightly build -q --offline --locked --target x86_64-unknown-linux-gnu >"$log" 2>&1; then
    echo "$now" > "$T/repo.sha256"
  else
    tail -20 "$log" >&2
    return 1
  fi
  # Without any script: compiles, and shows whether the interpreter works here.
  [ -e "$T/no-miri" ] && unlink "$T/no-miri"
  CARGO_TARGET_DIR="$T" RUSTFLAGS="-Awarnings" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks" \
    timeout 300 cargo +nightly miri run -q --offline --locked </dev/null >"$log" 2>&1 || : >"$T/no-miri"
}
case " $* " in *" --bins "*|*" p30 "*) (memory) || { return 1 2>/dev/null || exit 1; } ;; esac
