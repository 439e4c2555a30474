#!/bin/bash
# Offline sanity check of the tools the checks need. Every check builds its own
# driver from /repo's current tree, so nothing is prepared here.
set -e
cd "$(dirname "$0")/.."
for t in clang++-18 ninja python3 llvm-ar-18; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 harness/mkbuild.py "${REPO:-/repo}" "$PWD" "$PWD/build"
echo ok
