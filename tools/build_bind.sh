#!/bin/bash
# build_bind.sh py|wasm|c ...: builds the bindings of /repo's current working tree and the servers that drive them.
set -e
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
VERIF=$(cd "$(dirname "$0")/.." && pwd)
T=$VERIF/target/bind
export CARGO_TARGET_DIR=$T
mkdir -p "$T"
cd "$VERIF/bind"
sum() { find "$@" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1; }
run() { # directory package hash-of-sources
    local H=$3
    if [ "$(cat "$T/$1.hash" 2>/dev/null)" != "$H" ]; then
        (cd "$1" && cargo clean --offline -p ms_toollib -p "$2" >/dev/null 2>&1) || true
    fi
    if ! (cd "$1" && cargo build --offline --locked) >"$T/$1.log" 2>&1; then
        grep -E '^error' -A6 "$T/$1.log" | head -60 >&2
        echo "BUILD FAILED ($1)" >&2
        exit 2
    fi
    echo "$H" >"$T/$1.hash"
}
for w in "$@"; do
    case $w in
    py)
        run py pybind "$(sum /repo/base/src /repo/base/Cargo.toml /repo/python_package/src py)"
        mkdir -p "$T/pymod"
        cp -f "$T/debug/libms_toollib.so" "$T/pymod/ms_toollib.so.new" && mv -f "$T/pymod/ms_toollib.so.new" "$T/pymod/ms_toollib.so"
        ;;
    wasm)
        mkdir -p "$VERIF/target/wasmsrc.new"
        cp -r /repo/wasm/src/. "$VERIF/target/wasmsrc.new/"
        printf '\npub use board::vserver;\n' >>"$VERIF/target/wasmsrc.new/lib.rs"
        printf '\n#[path = "%s"]\npub mod vserver;\n' "$VERIF/bind/wasm/server.rs" >>"$VERIF/target/wasmsrc.new/board.rs"
        rm -rf "$VERIF/target/wasmsrc"
        mv "$VERIF/target/wasmsrc.new" "$VERIF/target/wasmsrc"
        run wasm wasmbind "$(sum /repo/base/src /repo/base/Cargo.toml /repo/wasm/src wasm)"
        ;;
    c)
        run c cbind "$(sum /repo/base/src /repo/base/Cargo.toml /repo/c/src c)"
        if ! gcc -O1 -w -I /repo/c c/server.c -o "$T/csrv" "$T/debug/libcbind.a" -lpthread -ldl -lm >"$T/cc.log" 2>&1; then
            cat "$T/cc.log" >&2
            echo "BUILD FAILED (c server)" >&2
            exit 2
        fi
        ;;
    esac
done
