#!/bin/bash
# cargo's rustc wrapper: counts the edges executed in the library, and only there.
for a in "$@"; do
  [ "$p" = "--crate-name" ] && case "$a" in piston_meta|piston_meta_search) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;; esac
  p="$a"
done
exec "$@"
