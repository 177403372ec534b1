#!/bin/bash
# check.sh PROPERTY [TIER]: builds the simulator against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -n "$2" ] && export VERIF_TIER="$2"
./build.sh || exit 2
exec ./sim/target/release/dst check "$1"
