#!/bin/bash
# builds the engine into $1 (default: /verif/.build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../.build}; mkdir -p "$out"
LC=/usr/lib/llvm-18/bin/llvm-config
g++ -std=gnu++17 -O2 -fexceptions -frtti -w $($LC --cppflags) -I"$here" "$here/sx.cpp" -o "$out/sx.tmp.$$" -rdynamic $($LC --ldflags --libs) -lz3 -ldl -lpthread
mv "$out/sx.tmp.$$" "$out/sx"
