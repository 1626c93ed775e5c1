#!/bin/bash
# Builds the simulators (build output goes to build/).
cd "$(dirname "$0")" || exit 2
. ./env.sh
export CARGO_TARGET_DIR="$PWD/build/target"
for d in ${*:-sim sim_avian}; do
    (cd "$d" && cargo build --offline --quiet --locked) || exit 1
done
