#!/bin/sh
# builds the AST extractor from the committed source
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
g++ -O1 -std=c++17 -fno-rtti extract/astdump.cpp -o build/astdump.tmp -I/usr/lib/llvm-18/include -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv build/astdump.tmp build/astdump
