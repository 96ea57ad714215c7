#!/bin/sh
# Compile the code under test (and nothing else) with basic-block callbacks, so that the simulator
# can preempt a thread between any two basic blocks.
rustc="$1"; shift
for a in "$@"; do
  case "$prev" in --crate-name) name="$a";; esac
  prev="$a"
done
case "$name" in
  radixdb|rdbsim|sample|bsim)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
