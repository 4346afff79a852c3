#!/bin/bash
# RUSTC_WRAPPER: adds scheduler call-backs to the code under simulation only.
rustc="$1"; shift
crate=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  prev="$a"
done
case "$crate" in
  redox_ecc|atomic_refcell|rsim)
    exec "$rustc" "$@" -Cpasses="sancov-module tsan" \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
  simrt) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" ;;
  *) exec "$rustc" "$@" ;;
esac
