#!/bin/bash
# Builds the harness against /repo's current working tree. Content, not timestamps, decides whether the library is rebuilt.
set -e
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
VERIF=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR=$VERIF/target
mkdir -p "$CARGO_TARGET_DIR"
cd "$VERIF/harness"
H=$(cd /repo/base && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/repo.hash" 2>/dev/null)" != "$H" ]; then
    cargo clean --offline -p ms_toollib >/dev/null 2>&1 || true
fi
LOG=$CARGO_TARGET_DIR/build.log
if ! cargo build --offline --locked >"$LOG" 2>&1; then
    grep -E '^error' -A6 "$LOG" | head -60 >&2
    echo "BUILD FAILED" >&2
    exit 2
fi
echo "$H" >"$CARGO_TARGET_DIR/repo.hash"
