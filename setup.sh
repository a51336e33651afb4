#!/bin/bash
# Builds the symbolic executor (offline; LLVM 18, z3 and gmp development files of the sandbox).
set -e
cd "$(dirname "$0")/engine"
make -j4
