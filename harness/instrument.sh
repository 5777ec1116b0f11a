#!/bin/bash
# RUSTC_WRAPPER that adds coverage and comparison tracing to the library only.
rustc=$1
shift
case " $* " in
*" --crate-name ur20 "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"
