#!/bin/bash
# builds symx into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
F="-O2 -std=c++17 -ffp-contract=off -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
for f in expr solver symx; do g++ $F -c $D/$f.cpp -o $O/$f.o & P="$P $!"; done
for p in $P; do wait $p; done
g++ $O/expr.o $O/solver.o $O/symx.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o $O/symx.tmp && mv $O/symx.tmp $O/symx
