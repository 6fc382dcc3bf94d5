#!/bin/bash
# Builds the AST extractor into /verif/build (offline; clang 18 libraries of the sandbox).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
L=/usr/lib/llvm-18/lib
tmp="$out/sdextract.$$"
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/sdextract.cpp" -o "$tmp" \
  $(ls $L/libclang-cpp.so.18* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1) \
  $(ls $L/libLLVM-18.so $L/libLLVM.so* /usr/lib/x86_64-linux-gnu/libLLVM-18.so* /usr/lib/x86_64-linux-gnu/libLLVM.so.18* 2>/dev/null | head -1) \
  -Wl,-rpath,$L
mv -f "$tmp" "$out/sdextract"
