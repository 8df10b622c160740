#!/bin/bash
# run.sh <property>: build the explorer against /repo's working tree and decide one property.
# Exit 0: held; 1: violated (VIOLATION line on stdout); anything else: error of the check.
set -u
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH="${PATH:-}:/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= RUSTFLAGS= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export VERIF_DIR=$dir VERIF_TIER=${VERIF_TIER:-quick}
export MC_START=$(date +%s)
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
build() { # profile; every profile has a target directory of its own, so that several can be built at once
    local sum out=$dir/mc/target/$1
    mkdir -p "$out"
    # cargo notices edits by time stamp; a changed tree with old stamps must be rebuilt as well
    sum=$(cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum)
    if [ "$(cat "$out/raki.sum" 2>/dev/null)" != "$sum" ]; then
        rm -f "$out/raki.sum"
        (cd "$dir/mc" && CARGO_TARGET_DIR=$out cargo clean --offline --profile "$1" -p raki) >/dev/null 2>&1
    fi
    # (a new version number of raki does not fit the lock file; the second attempt updates it)
    (cd "$dir/mc" && export CARGO_TARGET_DIR=$out && { cargo build --offline --locked --quiet --profile "$1" || cargo build --offline --quiet --profile "$1"; }) >"$out/build.log" 2>&1 || {
        cat "$out/build.log"
        echo "the explorer does not build" >&2
        return 2
    }
    echo "$sum" >"$out/raki.sum"
}
build_all() { # profiles, at the same time
    local p pids=() bad=0
    for p in "$@"; do build "$p" & pids+=($!); done
    for p in "${pids[@]}"; do wait "$p" || bad=2; done
    return $bad
}
case ${1:-} in
setup) build_all release steps plain bare ;;
C17)
    # schedules are explored in raki as written, not as optimised
    build steps || exit 2
    MC_LITE=1 "$dir/mc/target/steps/steps/mc" "$1" || exit $?
    if [ "$VERIF_TIER" = thorough ]; then
        build release || exit 2
        MC_KEEP=1 "$dir/mc/target/release/release/mc" "$1" || exit $?
    fi
    ;;
C22)
    build_all release plain steps bare || exit 2
    "$dir/mc/target/release/release/mc" "$1" || exit $?
    ;;
C[0-9]*)
    build release || exit 2
    "$dir/mc/target/release/release/mc" "$1" || exit $?
    if [ "$VERIF_TIER" = thorough ]; then
        # the same exploration of the build users ship, without overflow checks
        build plain || exit 2
        MC_KEEP=1 "$dir/mc/target/plain/plain/mc" "$1" || exit $?
    fi
    ;;
*) echo "usage: run.sh setup | run.sh <property>" >&2; exit 2 ;;
esac
