#!/bin/bash
# planted.sh [ID...]: runs each planted bug's own check against it, in a scratch copy of /repo and sim,
# and prints "id property exit first-line". Touches neither /repo nor /verif.
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
V=$PWD
T=$(mktemp -d /tmp/planted.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
git clone -q /repo "$T/repo" || exit 2
mkdir "$T/v" && cp -a sim "$T/v/sim" || exit 2
sed -i "s#\"/repo\"#\"$T/repo\"#" "$T/v/sim/Cargo.toml"
cp known-findings.txt "$T/v/"
cd "$T/v" || exit 2
ids=${*:-$(ls "$V/seeded")}
for id in $ids; do
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
    git -C "$T/repo" checkout -q -- . && git -C "$T/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id $prop patch does not apply"; continue; }
    if ! (cd sim && cargo build --release --offline >"$T/log" 2>&1); then echo "$id $prop does not build"; continue; fi
    out=$(./sim/target/release/dst check "$prop" 2>&1)
    rc=$?
    echo "$id $prop exit $rc $(grep -m1 VIOLATION <<<"$out" | cut -c1-160)"
done
