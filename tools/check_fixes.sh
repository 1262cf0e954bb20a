#!/bin/bash
# For each "fixed:" entry: undo the commit in a copy of /repo and run the check; it has to report a violation.
cd "$(dirname "$0")/.."
base=$(mktemp -d /tmp/fixes.XXXXXX)
grep '^fixed:' KNOWN_FINDINGS.txt | while read -r _ prop commit text; do
    id=${prop#property=}
    cp -a /repo "$base/r"
    if ! git -C "$base/r" -c user.name=x -c user.email=x@x revert --no-edit "$commit" >"$base/log" 2>&1; then
        echo "$id $commit CONFLICT: $(git -C "$base/r" diff --name-only --diff-filter=U | tr '\n' ' ')"
    else
        NODEFINDER_REPO="$base/r" timeout 900 ./check "$id" >"$base/log" 2>&1 </dev/null; rc=$?
        echo "$id $commit exit $rc $(grep -m1 VIOLATION "$base/log" | cut -c1-60) $(grep -A1 -m1 VIOLATION "$base/log" | tail -1 | cut -c1-120)"
    fi
    rm -rf "$base/r"
done
rm -rf "$base"
