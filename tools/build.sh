#!/bin/bash
# build the value-flow analyser (offline, LLVM 18 API)
set -e
cd "$(dirname "$0")/.."
mkdir -p build
clang++ -O2 -DNDEBUG -w -std=c++17 -fexceptions -I/usr/lib/llvm-18/include tools/irflow.cpp -o build/irflow.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/irflow.tmp build/irflow
