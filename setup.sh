#!/bin/bash
# builds the AST extractor (offline, clang-18 development files of the image)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/build"
mkdir -p "$out"
src="$here/tool/dfx.cpp"
if [ -x "$out/dfx" ] && [ "$out/dfx" -nt "$src" ] && [ "$1" != "-f" ]; then exit 0; fi
LL=/usr/lib/llvm-18
tmp="$out/dfx.$$"
g++ -std=c++17 -O1 -fno-rtti -w -I$LL/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$src" -o "$tmp" $LL/lib/libclang-cpp.so.18.1 $LL/lib/libLLVM-18.so -Wl,-rpath,$LL/lib
mv "$tmp" "$out/dfx"
