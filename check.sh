#!/bin/bash
# check.sh PROPERTY [quick|thorough] [rsim options]: rebuild, then search.
cd "$(dirname "$0")" || exit 2
p="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
t0=$(date +%s.%N)
./build.sh || exit 2
export RSIM_VERIF="$PWD" RSIM_OUT="${RSIM_OUT:-$PWD}"
mkdir -p "$RSIM_OUT/evidence" "$RSIM_OUT/replays"
b=$(awk -v a="$t0" -v b="$(date +%s.%N)" 'BEGIN{printf "%.1f", b-a}')
exec harness/target/debug/rsim check --prop "$p" --tier "$tier" --seed "${VERIF_SEED:-1}" --build-s "$b" "$@"
