#!/bin/bash
# RUSTC_WRAPPER: adds edge counters and comparison tracing to the crate under test only.
rustc="$1"; shift
want=0; prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "rmath" ]; then want=1; fi
  prev="$a"
done
if [ "$want" = 1 ]; then
  exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-trace-compares
fi
exec "$rustc" "$@"
