#!/bin/bash
# Instruments the code under test (level_db_rust, and sut, where its generics
# are instantiated) with callbacks at basic blocks, loads and stores.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
case "$name" in
level_db_rust | sut)
  exec "$rustc" "$@" --cfg dst -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores \
    -Ccodegen-units=4
  ;;
*) exec "$rustc" "$@" ;;
esac
