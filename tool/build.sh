#!/bin/bash
# builds the fact extractor (needs only clang 18's installed libraries)
cd "$(dirname "$0")" || exit 2
OUT=../build/extract
mkdir -p ../build
H=$(sha256sum extract.cpp | cut -c1-64)
[ -x $OUT ] && [ "$(cat $OUT.hash 2>/dev/null)" = "$H" ] && exit 0
clang++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include extract.cpp -o $OUT.tmp.$$ /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib -L/usr/lib/llvm-18/lib -lLLVM-18 || exit 2
mv $OUT.tmp.$$ $OUT && echo $H > $OUT.hash
