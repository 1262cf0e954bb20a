#!/bin/bash
# check_seeded.sh [dir names]: run the check of each seeded bug's property (quick) on a patched copy of /repo.
# ALSO="C05 C06" runs these checks as well.
cd "$(dirname "$0")/.."
base=$(mktemp -d /tmp/seeded.XXXXXX)
for d in ${@:-$(ls seeded)}; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    cp -a /repo "$base/r"
    if ! git -C "$base/r" apply "$PWD/seeded/$d/patch.diff"; then echo "$d DOES NOT APPLY"; rm -rf "$base/r"; continue; fi
    for id in $prop $ALSO; do
        s=$SECONDS
        NODEFINDER_REPO="$base/r" timeout 900 ./check "$id" >"$base/log" 2>&1 </dev/null; rc=$?
        echo "$d $id exit $rc $((SECONDS-s))s $(grep -A1 -m1 VIOLATION "$base/log" | tail -1 | cut -c1-150)"
    done
    rm -rf "$base/r"
done
rm -rf "$base"
