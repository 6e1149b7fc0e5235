#!/bin/sh
# builds the engine: symx
set -e
cd "$(dirname "$0")"
mkdir -p ../build
g++ -O2 -g1 -std=c++17 -w -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS symx.cpp -o ../build/symx.$$ -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv ../build/symx.$$ ../build/symx
