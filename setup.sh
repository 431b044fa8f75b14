#!/bin/bash
# Nothing is kept between runs: every check encodes and builds /repo's current tree
# in a scratch directory. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
for t in g++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
echo '#include <z3.h>
#include <gmpxx.h>
int main(){return 0;}' | g++ -x c++ - -o /dev/null -lz3 -lgmpxx -lgmp
python3 -c 'import checks, run'
mkdir -p evidence
echo ready
