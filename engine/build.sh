#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/vsym).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build/vsym}; mkdir -p "$(dirname "$out")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/include/z3++.h ] && ls $Z/lib/libz3* >/dev/null 2>&1; then ZF="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib"; else ZF=""; ZL=""; fi
g++ -std=c++17 -O2 -w $ZF $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions "$here/main.cpp" -o "$out.tmp.$$" $(llvm-config-18 --ldflags --libs core irreader bitreader support --link-shared) $ZL -lz3 -lgmpxx -lgmp
mv "$out.tmp.$$" "$out"
