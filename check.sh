#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--sub name] [--replay file]
# Rebuilds harness and tools from /repo's working tree and runs the checks of one property.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" VERIF_TIER="${VERIF_TIER:-quick}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUST_LOG CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
id="${1:?property}"
T="$PWD/.build/harness"
mkdir -p "$T" evidence replays || exit 2
# one check at a time uses the build directories
exec 9>"$PWD/.build/lock"
flock -w 600 9 || { echo "ERROR: another check holds the build directories" >&2; exit 2; }

# modification times alone are not trusted: a changed fingerprint of the sources forces a rebuild
print=$({ find /repo/src /repo/Cargo.toml /repo/Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha1sum; } | sha1sum)
if [ "$(cat "$T/vp-stamp" 2>/dev/null)" != "$print" ]; then
  (cd harness && cargo clean --release --offline -p stringology --target-dir "$T") >/dev/null 2>&1
  echo "$print" > "$T/vp-stamp"
fi
build() { (cd harness && cargo build --release --offline --target-dir "$T" "$@") >"$T/build.log" 2>&1; }
exe="$T/release/vp"
low=$(echo "$id" | tr A-Z a-z)
if ! build; then
  cp "$T/build.log" "$T/build-full.log"
  # a library function used by some other property may be gone: build this property's checks only
  if grep -q "^$low = " harness/Cargo.toml && build --no-default-features --features "$low"; then :
  elif build -p vcore --bin vpt; then exe="$T/release/vpt"
    echo "NOTE: the library checks of $id do not build against this tree; tool checks only" >&2
  else
    tail -40 "$T/build-full.log" >&2
    echo "ERROR: the harness does not build against this tree" >&2
    exit 2
  fi
fi
if [ "${2:-}" != build-only ]; then
  "$exe" check "$@" 9>&-
  exit $?
fi
