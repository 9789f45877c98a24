#!/bin/bash
# usage: run.sh <PROPERTY> [args]   -- rebuilds the harness from /repo's working tree and runs one check.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.78.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" VP_VERIF="$here"
cd "$here/harness" || exit 2
log="$(mktemp /tmp/vp-build.XXXXXX)"
if ! cargo build --offline --locked >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"; echo "harness error: build failed" >&2; exit 2
fi
rm -f "$log"
[ "$1" = "--build-only" ] && exit 0
exec "$CARGO_TARGET_DIR/debug/vp" "$@"
