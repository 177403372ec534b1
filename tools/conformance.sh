#!/bin/bash
# conformance.sh [SEED] [RUNS]: compares the simulated file system with the real one, call by call,
# in a scratch folder and as an unprivileged user.
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
./build.sh || exit 2
T=$(mktemp -d) || exit 2
./sim/target/release/dst conform "${1:-1}" "${2:-3000}" "$T"
rc=$?
rmdir "$T"
exit $rc
