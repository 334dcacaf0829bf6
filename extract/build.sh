#!/bin/bash
# Builds the AST serialiser into $1 (directory).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
L=/usr/lib/llvm-18
g++ -std=c++17 -O1 -fno-rtti -w -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
    -I$L/include "$here/bnextract.cpp" -o "$out/bnextract.tmp.$$" \
    -L$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,$L/lib
mv "$out/bnextract.tmp.$$" "$out/bnextract"
