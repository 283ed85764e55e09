#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/sx).
cd "$(dirname "$0")"; out=${1:-../build/sx}; mkdir -p "$(dirname "$out")"
g++ -O2 -std=c++17 -fno-exceptions -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS sx.cpp -o "$out.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 && mv "$out.tmp.$$" "$out"
