#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/engine).
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/build/engine}
mkdir -p "$OUT"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXXF="-std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-deprecated-declarations"
if [ -f $Z3/include/z3++.h ] && [ -f $Z3/lib/libz3.so ]; then ZI="-I$Z3/include"; ZL="-L$Z3/lib -Wl,-rpath,$Z3/lib -lz3"; else ZI=""; ZL="-lz3"; fi
g++ $CXXF -c expr.cpp -o $OUT/expr.o & p1=$!
g++ $CXXF -c fp.cpp -o $OUT/fp.o & p2=$!
g++ $CXXF $ZI -c solver.cpp -o $OUT/solver.o & p3=$!
g++ $CXXF -fexceptions -c main.cpp -o $OUT/main.o & p4=$!
for p in $p1 $p2 $p3 $p4; do wait $p; done
g++ $OUT/*.o -o $OUT/symx -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib $ZL
