#!/bin/bash
# builds the engine into $1
set -e
d="$(cd "$(dirname "$0")" && pwd)"; o="${1:?outdir}"
mkdir -p "$o"
LL="-I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
clang++ -std=c++17 -O2 -Wno-unused-function -Wno-deprecated-declarations -c "$d/expr.cpp" -o "$o/expr.o" &
clang++ -std=c++17 -O2 -fexceptions -Wno-unused-function -Wno-deprecated-declarations $LL -c "$d/symir.cpp" -o "$o/symir.o" &
wait %1; wait %2
clang++ "$o/expr.o" "$o/symir.o" -o "$o/symir.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$o/symir.tmp" "$o/symir"
