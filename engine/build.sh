#!/bin/bash
# Builds the symbolic executor into /verif/build/hysym.
set -e
cd "$(dirname "$0")"
out=../build
mkdir -p $out
if [ -x $out/hysym ] && [ $out/hysym -nt engine.cxx ] && [ $out/hysym -nt builtins.hxx ] && [ $out/hysym -nt poly.hxx ]; then exit 0; fi
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
zi=; zl=
if [ -f $Z/include/z3++.h ] && [ -f $Z/lib/libz3.so ]; then zi=-I$Z/include; zl="-L$Z/lib -Wl,-rpath,$Z/lib"; fi
tmp=$out/hysym.$$
clang++-18 -std=c++17 -O2 -fexceptions $zi -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS engine.cxx -o $tmp \
  $zl -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp
mv $tmp $out/hysym
