#!/bin/sh
# Builds the IR reader used by every check (offline, from committed sources).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
g++ -O1 -std=c++17 -fno-rtti -w irdump.cpp -I/usr/lib/llvm-18/include -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib -o ../build/irdump.tmp$$
mv ../build/irdump.tmp$$ ../build/irdump
