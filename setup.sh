#!/bin/bash
# Every check builds what it needs from /repo by itself; this only verifies the tools.
set -e
for t in clang++ cmake ninja protoc ld.lld python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/build"
echo ok
