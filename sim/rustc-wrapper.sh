#!/bin/bash
# Instruments code edges of the code under test (and the thread pool it uses), for preemption and coverage.
rustc="$1"; shift
cap=
case "$CARGO_MANIFEST_DIR" in
  "$SIM_REPO"/*|*/sim/cli) cap="--cap-lints allow" ;;
esac
case "$CARGO_MANIFEST_DIR" in
  "$SIM_REPO"/*|*/threadpool-*|*/sim/cli)
    case " $* " in *" build_script_build "*) exec "$rustc" "$@";; esac
    exec "$rustc" "$@" $cap -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
