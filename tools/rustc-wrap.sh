#!/bin/bash
# RUSTC_WRAPPER: instruments only the crate under test with edge-coverage
# callbacks (the harness' step clock and coverage map hang off them).
rustc="$1"; shift
case " $* " in
  *" --crate-name whitespace "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1;;
  *) exec "$rustc" "$@";;
esac
