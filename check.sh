#!/bin/bash
# check.sh P01            run the check of a property (VERIF_SEED, VERIF_TIER)
# check.sh --replay FILE  run a recorded case again
# check.sh --build        only build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export QLC_VERIF_DIR="$here"
target="$here/target/harness"
log="$(mktemp)"
if ! (cd "$here/harness" && env -u RUSTFLAGS CARGO_TARGET_DIR="$target" cargo build --offline --locked --quiet) >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "the harness does not build" >&2
  exit 2
fi
rm -f "$log"
[ "${1:-}" = "--build" ] && exit 0
exec "$target/debug/qlc-verif" "$@"
