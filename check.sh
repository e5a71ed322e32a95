#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   (or: check.sh build)
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
python3 sim/overlay.py || exit 2
make() {
    local log
    log=$(mktemp)
    if ! (cd sim && cargo build --offline -q "$@") >"$log" 2>&1; then
        grep -A12 '^error' "$log" | head -60
        rm -f "$log"
        echo "the harness does not build against /repo"
        return 2
    fi
    rm -f "$log"
}
# the browser reader is apart: the other checks do not depend on its building
browser() { make --features wasm --bin fcbsim_wasm; }
case $1 in
build)
    make || exit 2
    browser
    exit 0
    ;;
C24)
    browser || exit 2
    exec sim/target/debug/fcbsim_wasm check "$1" "$2"
    ;;
*)
    make || exit 2
    exec sim/target/debug/fcbsim check "$1" "$2"
    ;;
esac
