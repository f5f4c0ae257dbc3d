#!/bin/bash
# Builds the AST exporter into /verif/build (git-ignored). Offline, idempotent.
set -e
cd "$(dirname "$0")"
mkdir -p build
out=build/lru-export
if [ ! -x $out ] || [ exporter/export.cpp -nt $out ]; then
  LL=/usr/lib/llvm-18
  clang++ -std=c++17 -fno-rtti -O1 -w $($LL/bin/llvm-config --cxxflags) -fexceptions exporter/export.cpp -o $out.$$ \
    -L$LL/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  mv $out.$$ $out
fi
