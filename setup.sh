#!/bin/bash
# Builds the symbolic execution engine (engine/dsym.cpp) into build/dsym. Offline, ~15 s.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
sum=$(cat engine/dsym.cpp engine/support.c engine/support.ll | sha256sum | cut -c1-16)
[ -x build/dsym ] && [ -f build/support.bc ] && [ "$(cat build/dsym.sum 2>/dev/null)" = "$sum" ] && exit 0
L=/usr/lib/llvm-18/bin
$L/clang -O1 -Xclang -disable-llvm-passes -ffreestanding -fno-builtin -w -emit-llvm -c engine/support.c -o build/support.c.bc
$L/llvm-link build/support.c.bc engine/support.ll -o build/support.l.bc
$L/opt -passes=sroa build/support.l.bc -o build/support.bc
g++ -O2 -std=c++17 -w -fno-rtti engine/dsym.cpp -o build/dsym.tmp.$$ \
    -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv build/dsym.tmp.$$ build/dsym
echo "$sum" > build/dsym.sum
