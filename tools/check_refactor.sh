#!/bin/bash
# check_refactor.sh [names]: every check has to be quiet on the behaviour-preserving edits in refactorings/. CHECKS="C01 ..." restricts.
cd "$(dirname "$0")/.."
base=$(mktemp -d /tmp/refactor.XXXXXX)
for n in ${@:-$(cd refactorings; ls *.diff | sed s/.diff//)}; do
    cp -a /repo "$base/r"
    if ! git -C "$base/r" apply "$PWD/refactorings/$n.diff"; then echo "$n DOES NOT APPLY"; rm -rf "$base/r"; continue; fi
    for id in ${CHECKS:-$(seq -f "C%02g" 1 27)}; do
        s=$SECONDS
        NODEFINDER_REPO="$base/r" timeout 900 ./check "$id" >"$base/log" 2>&1 </dev/null; rc=$?
        [ $rc = 0 ] || echo "$n $id exit $rc $((SECONDS-s))s $(grep -A1 -m1 VIOLATION "$base/log" | tail -1 | cut -c1-250)"
    done
    echo "$n done"
    rm -rf "$base/r"
done
rm -rf "$base"
