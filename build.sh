#!/bin/bash
# Builds the harness together with the program from /repo's working tree, offline.
# Arguments are passed to cargo build.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.75.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS=
ROOT=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$ROOT/target
mkdir -p "$CARGO_TARGET_DIR/release"
exec 9>"$CARGO_TARGET_DIR/.phx.lock"
flock 9
# cargo goes by modification times; a tree copied into place may carry old ones, so go by content
h=$(find /repo/src /repo/Cargo.toml /repo/Cargo.lock "$ROOT/harness/src" "$ROOT/harness/Cargo.toml" "$ROOT/harness/Cargo.lock" -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.phx.hash" 2>/dev/null)" != "$h" ]; then
  rm -f "$CARGO_TARGET_DIR/.phx.hash"
  find "$CARGO_TARGET_DIR/release/.fingerprint" -mindepth 1 -maxdepth 1 \( -name 'phoenix-v1-*' -o -name 'phx-*' \) -exec rm -r {} + 2>/dev/null
fi
cd "$ROOT/harness" && cargo build --locked --offline --release "$@" || exit 2
echo "$h" > "$CARGO_TARGET_DIR/.phx.hash"
