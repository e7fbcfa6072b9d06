#!/bin/bash
# usage: check.sh <property>      decide a property on /repo's current tree (VERIF_TIER=quick|thorough)
#        check.sh replay <file>   run one recorded violation again
#        check.sh build           only build
set -u
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/.target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
mkdir -p .target .work evidence

build() {
    exec 9>.work/lock
    flock 9
    # cargo goes by time stamps; go by the content of what is checked
    local sum
    sum=$(cd /repo && cat Cargo.toml $(find src -type f | LC_ALL=C sort) | sha256sum) || return 1
    if [ "$sum" != "$(cat .work/checked 2>/dev/null)" ]; then
        rm -f .work/checked
        cargo clean --offline --release --manifest-path mc/Cargo.toml -p nrbf >/dev/null 2>&1
    fi
    cargo build --offline --locked --release --manifest-path mc/Cargo.toml >.work/build.log 2>&1 || { tail -40 .work/build.log; return 1; }
    echo "$sum" >.work/checked
    exec 9>&-
}

case "${1:-}" in
build) build || exit 2 ;;
replay) build || exit 2; exec .target/release/mc replay "$2" ;;
C[0-9][0-9]) build || { echo "the build failed"; exit 2; }; exec .target/release/mc check "$1" ;;
*) sed -n 2,4p "$0"; exit 2 ;;
esac
