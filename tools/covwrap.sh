#!/bin/bash
# rustc wrapper: compiles the crate under test (and nothing else) with edge counters and comparison callbacks
rustc=$1; shift; p=
for a in "$@"; do
  if [ "$p" = --crate-name ] && [ "$a" = jotdown ]; then
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-trace-compares -C codegen-units=1
  fi
  p=$a
done
exec "$rustc" "$@"
