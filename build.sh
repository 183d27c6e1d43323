#!/bin/bash
# Builds the simulator against /repo's current working tree.
set -e
cd /verif/sim
export SIM_REPO=/repo RUSTC_WRAPPER=/verif/sim/rustc-wrapper.sh CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/sim/target
# The programs become a library: their sources as they are, and after them a function that calls their main.
new=gen/new.$$
mkdir -p gen/cli "$new"
cp -r "$SIM_REPO"/cli/src/. "$new"
cp "$SIM_REPO"/report/src/render.rs "$new/sim_render.rs"
cat cli/entry_main.rs >> "$new/main.rs"
cat cli/entry_render.rs >> "$new/sim_render.rs"
diff -rq "$new" gen/cli > /dev/null 2>&1 || { find gen/cli -mindepth 1 -delete; cp -r "$new"/. gen/cli; }
find "$new" -delete
exec cargo build --offline --quiet "$@"
