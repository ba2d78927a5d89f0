#!/bin/bash
# Builds the analysis tools from the committed sources into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"
B=../build; mkdir -p $B
INC="-I/usr/lib/llvm-18/include -I/usr/include/llvm-18 -I/usr/include/llvm-c-18"
if [ ! -x $B/irdump ] || [ irdump.cc -nt $B/irdump ]; then
    g++ -std=c++17 -O1 -fno-rtti $INC irdump.cc -o $B/irdump.tmp -L/usr/lib/llvm-18/lib -lLLVM-18
    mv $B/irdump.tmp $B/irdump
fi
