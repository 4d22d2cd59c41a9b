#!/bin/bash
# check.sh <property> [--thorough] : builds the harness against /repo's working tree and runs the search.
# exit 0 held, 1 violation (with a VIOLATION line), anything else: no answer
prop="$1"; shift
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/sim/env.sh"
cd "$here/sim" || exit 2
T=x86_64-unknown-linux-gnu
log="$(mktemp)"
if ! cargo build --offline --target $T >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"
  echo "harness build failed" >&2
  exit 3
fi
rm -f "$log"
cd "$here" || exit 2
exec "$CARGO_TARGET_DIR/$T/debug/osmio-sim" check "$prop" --root "$here" "$@"
