#!/bin/bash
# builds build/rt.bc
set -e
cd "$(dirname "$0")"; B=${B:-../build}; mkdir -p $B
F="-std=c++20 -O1 -emit-llvm -c -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -w -fno-strict-aliasing"
clang++-18 $F -fno-builtin -I. -o $B/rt.bc rt.cpp
