#!/bin/bash
# Builds what the checks need (offline): the file system fault injection shim.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ -f shim/fsshim.c ]; then
    gcc -O1 -Wall -fPIC -shared -o build/fsshim.so shim/fsshim.c -ldl
fi
echo "setup ok"
