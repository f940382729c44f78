#!/bin/bash
# rustc wrapper: the code under test (the library and the types derived with it) reports every basic-block edge it takes and every memory access it makes
rustc=$1; shift
prev=; name=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case $name in
  validators|ty_*) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zshare-generics=no -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-prune-blocks=0 -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
