#!/bin/bash
# builds the analysis tools (idempotent)
set -e
cd "$(dirname "$0")"
mkdir -p bin
for t in dfa m2; do
  if [ ! -x bin/$t ] || [ $t.cc -nt bin/$t ] || [ algebra.hh -nt bin/$t ]; then
    clang++ -std=c++17 -O1 -fno-rtti -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D_GNU_SOURCE \
      -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS $t.cc -o bin/$t.tmp.$$ \
      /usr/lib/llvm-18/lib/libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib &
  fi
done
wait
for t in dfa m2; do if [ -e bin/$t.tmp.$$ ]; then mv bin/$t.tmp.$$ bin/$t; fi; [ -x bin/$t ]; done
