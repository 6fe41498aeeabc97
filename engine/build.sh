#!/bin/bash
# Builds the symbolic executor into /verif/build/vsym (ignored by git).
set -e
cd "$(dirname "$0")"; B=../build; mkdir -p $B
H=$(cat *.cpp *.h build.sh | sha256sum)
if [ -x $B/vsym ] && [ "$(cat $B/vsym.hash 2>/dev/null)" = "$H" ]; then exit 0; fi
CXXF="-std=c++17 -O2 -fno-rtti -I$(llvm-config-18 --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for f in expr solver engine handlers; do g++ $CXXF -c $f.cpp -o $B/$f.o & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ -o $B/vsym $B/expr.o $B/solver.o $B/engine.o $B/handlers.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
echo "$H" > $B/vsym.hash
