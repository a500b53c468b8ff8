#!/bin/sh
# rustc wrapper: edge counters in the crate under test only
rustc="$1"; shift
case " $* " in
*" --crate-name gfm "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
*) exec "$rustc" "$@" ;;
esac
