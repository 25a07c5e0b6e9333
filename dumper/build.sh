#!/bin/bash
# Builds the syntax tree dumper into $1 (default /verif/build/astdump).
set -e
cd "$(dirname "$0")"
out=${1:-../build/astdump}
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt astdump.cpp ]; then exit 0; fi
tmp=$out.$$
g++ -O1 -std=c++17 -fno-rtti astdump.cpp -o "$tmp" \
    $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') \
    -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18
mv "$tmp" "$out"
