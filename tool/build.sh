#!/bin/bash
# builds the AST extractor; offline, uses only the installed clang 18 libraries
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../_build}
mkdir -p "$out"
if [ -x "$out/qx" ] && [ "$out/qx" -nt "$here/qx.cpp" ]; then exit 0; fi
tmp="$out/qx.$$"
/usr/bin/clang++ -std=c++17 -fno-rtti -O1 -I/usr/lib/llvm-18/include "$here/qx.cpp" -o "$tmp" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f "$tmp" "$out/qx"
