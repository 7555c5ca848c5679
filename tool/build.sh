#!/bin/bash
# builds the extractor: build.sh OUT
set -e
D=$(cd "$(dirname "$0")" && pwd)
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE -w \
  "$D/extract.cpp" -o "$1" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
