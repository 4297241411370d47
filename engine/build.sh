#!/bin/sh
set -e
cd "$(dirname "$0")"
mkdir -p "$1"
for f in symx ir expr; do g++ -O2 -std=c++17 -c -o "$1/$f.o" $f.cpp & done; wait
g++ -o "$1/symx.tmp" "$1/symx.o" "$1/ir.o" "$1/expr.o" -lz3
mv "$1/symx.tmp" "$1/symx"
