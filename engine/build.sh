#!/bin/bash
# Builds the engine into $1 (default /verif/build). Offline; needs the preinstalled LLVM 18 and z3 development files.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"; mkdir -p "$out"
CXX=/usr/bin/clang++-18; command -v $CXX >/dev/null || CXX=clang++
INC="-I$(llvm-config-18 --includedir)"
F="-std=c++17 -O2 -fno-rtti -w -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
$CXX $F $INC -fexceptions -c "$here/main.cpp" -o "$out/main.o.$$" &
$CXX $F $INC -fexceptions -c "$here/solver.cpp" -o "$out/solver.o.$$" &
wait
$CXX "$out/main.o.$$" "$out/solver.o.$$" -L$(llvm-config-18 --libdir) -lLLVM-18 -lz3 -o "$out/vfse.$$"
mv "$out/vfse.$$" "$out/vfse"; rm -f "$out/main.o.$$" "$out/solver.o.$$"
