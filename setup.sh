#!/bin/bash
# Nothing to install: every check builds what it needs (engine, bitcode) under build/. Verify the tools are there.
set -e
cd "$(dirname "$0")"
for t in clang++-18 g++ python3 c++filt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -e /usr/lib/llvm-18/lib/libLLVM-18.so || ls /usr/lib/llvm-18/lib/libLLVM* >/dev/null
test -e /usr/include/z3++.h || test -e /usr/include/z3.h
python3 -c "import checks"
