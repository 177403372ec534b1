#!/bin/bash
# Builds the simulator (release) against /repo's working tree.
cd "$(dirname "$0")/sim" || exit 2
. ../env.sh
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
# Every file-system and clock call must go through the simulator.
./seams.sh target/release/dst || exit 2
