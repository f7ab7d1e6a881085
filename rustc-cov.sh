#!/bin/sh
# RUSTC_WRAPPER: compiles the crate under test with edge counters, everything else as it is.
rustc=$1
shift
case " $* " in
*" --crate-name undname "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters
    ;;
esac
exec "$rustc" "$@"
