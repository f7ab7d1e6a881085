#!/bin/bash
# check.sh ID [TIER]: builds the monitors from /repo's working tree, then runs those of property ID.
# check.sh --build: only builds, everything.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
repo=${UNDMON_REPO:-/repo}
export UNDMON_VERIF=$here UNDMON_REPO=$repo
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET MIRIFLAGS RUSTC_WRAPPER
h=$here/harness
t=$h/target
mkdir -p "$t" evidence
log=$t/build.log

# A file may change without its time moving forward, so that cargo would think nothing changed.
fresh() { # DIR CARGO-CLEAN-ARGS...
    local dir=$1 sum
    shift
    sum=$(cd "$repo" && { find src -type f -print0 | sort -z | xargs -0 cat; cat Cargo.toml; find src -type f | sort; } | sha256sum)
    if [ "$(cat "$dir/source.sum" 2>/dev/null)" != "$sum" ]; then
        mkdir -p "$dir"
        rm -f "$dir/source.sum"
        (cd "$h" && cargo "$@" clean --offline -p undname --target-dir "$dir") >>"$log" 2>&1
        (cd "$h" && cargo "$@" clean --offline --release -p undname --target-dir "$dir") >>"$log" 2>&1
        find "$dir" \( -name 'libundname-*' -o -name 'undname-*' \) -prune -exec rm -rf {} + 2>/dev/null
        echo "$sum" >"$dir/source.sum.new"
    fi
}
settled() { # DIR
    [ ! -e "$1/source.sum.new" ] || mv "$1/source.sum.new" "$1/source.sum"
}
failed() {
    echo "check.sh: the build of $1 failed" >&2
    tail -40 "$log" >&2
    exit 2
}

build_main() {
    fresh "$t/main"
    (cd "$h" && RUSTC_WRAPPER=$here/rustc-cov.sh cargo build --offline --release --bin undmon --target-dir "$t/main") >>"$log" 2>&1 || failed main
    settled "$t/main"
}
build_debug() {
    (cd "$h" && RUSTC_WRAPPER=$here/rustc-cov.sh cargo build --offline --bin undmon --target-dir "$t/main") >>"$log" 2>&1 || failed debug
}
build_asan() {
    fresh "$t/asan" +nightly
    (cd "$h" && RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=off" cargo +nightly build --offline --release --bin plain --target x86_64-unknown-linux-gnu --target-dir "$t/asan") >>"$log" 2>&1 || failed asan
    settled "$t/asan"
}
build_miri() {
    fresh "$t/miri" +nightly
    : >"$t/empty.list"
    (cd "$h" && MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR=$t/miri RUSTFLAGS= \
        cargo +nightly miri run --offline -q --profile miri --bin plain -- "$t/empty.list") >>"$log" 2>&1 || failed miri
    settled "$t/miri"
}

: >"$log"
exec 9>"$t/lock"
flock 9
case ${1:-} in
--build)
    build_main
    build_debug
    build_asan
    build_miri
    exit 0
    ;;
C01)
    build_main
    build_debug
    ;;
C03)
    build_main
    build_asan
    build_miri
    ;;
C05)
    build_main
    build_miri
    ;;
C[0-9][0-9]) build_main ;;
*)
    echo "usage: check.sh ID | --build" >&2
    exit 2
    ;;
esac
flock -u 9
[ -z "${2:-}" ] || export VERIF_TIER=$2
exec "$t/main/release/undmon" run "$1"
