#!/bin/bash
# RUSTC_WRAPPER: adds edge-coverage callbacks to the code under test (yaml_peg)
# and to the shim that instantiates its generics. Nothing else is instrumented.
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      yaml_peg|yshim)
        exec "$@" -Cpasses=sancov-module \
          -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
    break
  fi
  prev=$a
done
exec "$@"
