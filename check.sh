#!/bin/bash
# Decides one property: builds the simulator against /repo's working tree and runs its scenarios.
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER as given by the caller)
cd /verif || exit 2
if ! bash build.sh > out.build.log 2>&1; then cat out.build.log; echo "build failed"; exit 2; fi
rm -f /verif/out.build.log
pad=$(printf 'x %.0s' {1..48})
exec sim/target/debug/sim check "$1" --pad $pad
