#!/bin/bash
# Checks that the tools the checks need are present; every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
for t in g++ clang++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence
echo ok
