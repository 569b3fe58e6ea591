#!/bin/bash
# Builds the fact extractor into $1 (a cache directory ignored by git).
set -e
OUT=${1:?}
mkdir -p "$OUT"
SRC=$(dirname "$(readlink -f "$0")")/extract.cpp
SUM=$(sha256sum < "$SRC")
if [ -x "$OUT/extract" ] && [ "$(cat "$OUT/extract.sum" 2>/dev/null)" = "$SUM" ]; then exit 0; fi
LIB=/usr/lib/llvm-18/lib
CPP=$(ls $LIB/libclang-cpp.so* 2>/dev/null | head -1)
T="$OUT/extract.$$"
clang++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$SRC" -o "$T" "$CPP" -L$LIB -lLLVM-18
mv "$T" "$OUT/extract"
echo "$SUM" > "$OUT/extract.sum"
