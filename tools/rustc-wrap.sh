#!/bin/sh
# RUSTC_WRAPPER: instruments only the crate under test (nom-exif) with edge
# counters (see harness/covrt); every other crate is compiled as usual.
rustc=$1; shift
case " $* " in
  *" --crate-name nom_exif "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
