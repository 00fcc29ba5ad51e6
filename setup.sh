#!/bin/bash
# Checks that the installed tools the framework needs are there; nothing is built ahead of a check.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for t in clang++ g++ z3 z3-new cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import vf.z3env, numpy, numba; import vf.vcgen, vf.solve, vf.cxx"
echo setup ok
