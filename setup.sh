#!/bin/sh
# Nothing is prebuilt: every check builds /repo's current tree itself. This only checks the tools.
set -e
for t in g++ cmake ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p .build evidence replays
