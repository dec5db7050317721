#!/bin/bash
# builds fsym into /verif/build (skips when up to date)
set -e
cd "$(dirname "$0")"
out=${1:-../build}
mkdir -p "$out"
key=$(cat *.cpp *.h build.sh | sha256sum | cut -d' ' -f1)
if [ -x "$out/fsym" ] && [ "$(cat "$out/fsym.key" 2>/dev/null)" = "$key" ]; then exit 0; fi
tmp=$(mktemp -d "$out/bXXXXXX")
clang++-18 -std=c++17 -O2 -g1 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fno-rtti fsym.cpp -o "$tmp/fsym" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18
mv "$tmp/fsym" "$out/fsym"; rmdir "$tmp"
echo "$key" > "$out/fsym.key"
