#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test, its parser-combinator dependency and the shim that
# instantiates its generics with a scheduling point on every basic block, and the run-time with the
# unstable alloc_error_hook feature. Everything else is compiled as usual.
rustc="$1"; shift
case " $* " in
  *" --crate-name graphql_parser "*|*" --crate-name combine "*|*" --crate-name shim "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 ;;
  *" --crate-name simrt "*)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" ;;
esac
exec "$rustc" "$@"
