#!/bin/bash
# Builds the symbolic executor into /verif/build (idempotent).
set -e
cd "$(dirname "$0")"
B=../build/engine
mkdir -p $B
F="-O2 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
g++ $F -c expr.cpp -o $B/expr.o &
g++ $F -c solver.cpp -o $B/solver.o &
g++ $F -c vsym.cpp -o $B/vsym.o &
for j in $(jobs -p); do wait $j; done
g++ -o $B/vsym.tmp $B/expr.o $B/solver.o $B/vsym.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp
mv $B/vsym.tmp $B/vsym
