#!/bin/bash
# Nothing is kept between runs: every check compiles /repo's working tree itself.
# This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for t in g++ clang++ python3 gsl-config valgrind; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -m py_compile check.py lib/run.py lib/build.py lib/config.py
echo setup ok
