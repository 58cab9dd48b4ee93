#!/bin/bash
# check.sh ID: rebuilds from /repo's working tree and runs the check of property ID.
# VERIF_SEED and VERIF_TIER (quick, thorough) are honoured; PHX_SECS overrides the search time.
ROOT=$(cd "$(dirname "$0")" && pwd)
log=$(mktemp)
if ! bash "$ROOT/build.sh" >"$log" 2>&1; then
  tail -40 "$log" >&2
  rm -f "$log"
  echo "check.sh: build failed" >&2
  exit 2
fi
rm -f "$log"
PHX_ROOT=$ROOT exec "$ROOT/target/release/phx" check "$1"
