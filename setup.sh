#!/bin/bash
# Nothing is built ahead of time: every check recompiles /repo's sources.  Verify that the tools are there.
set -e
for t in cbmc clang-18 llvm-link python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p "$(dirname "$0")/evidence"
