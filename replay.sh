#!/bin/bash
# replay.sh FILE: run a recorded violation again against /repo's current tree
f="$(realpath "$1")"; cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
RSIM_VERIF="$PWD" exec harness/target/debug/rsim replay "$f" -v
