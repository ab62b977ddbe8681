#!/bin/bash
# builds the verifier from the committed sources
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build}
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -fno-rtti -fexceptions -w -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I$Z/include "$D/vfy.cpp" -o "$OUT/vfy.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -ldl -lpthread
mv "$OUT/vfy.tmp" "$OUT/vfy"
