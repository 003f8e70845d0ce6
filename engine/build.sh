#!/bin/bash
# build the symbolic executor: build.sh OUTDIR
set -e
cd "$(dirname "$0")"
mkdir -p "$1"
g++ -std=c++17 -O2 -g0 -w -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS vse.cpp expr.cpp -o "$1/vse.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib && mv "$1/vse.tmp.$$" "$1/vse"
