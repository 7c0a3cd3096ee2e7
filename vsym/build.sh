#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/vsym) when it is missing or older than its source
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build/vsym}
mkdir -p "$(dirname "$OUT")"
if [ -x "$OUT" ] && [ "$OUT" -nt "$D/vsym.cpp" ]; then exit 0; fi
TMP="$OUT.$$"
g++ -O2 -std=c++17 -w "$D/vsym.cpp" -o "$TMP" $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++[0-9]*//') $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$TMP" "$OUT"
