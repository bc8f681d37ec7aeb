#!/bin/sh
# rustc for the harness: the crate under test is built with coverage counters
rustc="$1"
shift
case " $* " in
*" --crate-name hddl_analyzer "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares \
        -Ccodegen-units=1
    ;;
esac
exec "$rustc" "$@"
