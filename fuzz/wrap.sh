#!/bin/bash
# RUSTC_WRAPPER: have the library under test count its branches for libFuzzer.
rustc="$1"
shift
case " $* " in
*" --crate-name bardecoder "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=4 \
        -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-pc-table \
        -C llvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"
