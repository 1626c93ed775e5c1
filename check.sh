#!/bin/bash
# check.sh ID: builds the simulator from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
case "$1" in
    C11) sim=sim_avian exe=rrsim_avian ;;
    *) sim=sim exe=rrsim ;;
esac
./build.sh $sim || { echo "the simulator does not build" >&2; exit 2; }
exec ./build/target/debug/$exe check "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
    --known known_findings.json --evidence "evidence/$1.json" --replays "$PWD/evidence/replays"
