#!/bin/bash
# run.sh <PROPERTY> <quick|thorough>: rebuild the checker against /repo's working
# tree and decide one property.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
case "$PROP" in
  C26|C27) exec python3 kani/check.py "$PROP" "$TIER" ;;
esac
LOG="$(mktemp)"
if ! ( cd symcheck && cargo build --release --offline --locked ) >"$LOG" 2>&1; then
  tail -40 "$LOG"; rm -f "$LOG"
  echo "ERROR: the checker does not build against /repo"; exit 3
fi
rm -f "$LOG"
exec symcheck/target/release/symcheck "$PROP" --tier "$TIER"
