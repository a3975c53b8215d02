#!/bin/bash
# RUSTC_WRAPPER: instruments the library under test (and the shim crate that
# instantiates its generic functions) with sancov basic-block and comparison
# callbacks, which the simulator implements.
rustc="$1"; shift
n=
for ((i=1;i<=$#;i++)); do
  if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); n="${!j}"; fi
done
case "$n" in
  minisign|shim)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-compares \
      -Clto=off -Cembed-bitcode=no ;;
esac
exec "$rustc" "$@"
