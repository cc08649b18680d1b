#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
/usr/lib/llvm-18/bin/clang++ -std=c++20 -O2 -w -fexceptions -I/usr/lib/llvm-18/include -I$Z/include symex.cpp -o "$OUT/symex.tmp.$$" \
  -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
mv "$OUT/symex.tmp.$$" "$OUT/symex"
