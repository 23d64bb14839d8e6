#!/bin/bash
# builds the symbolic execution engine: build.sh OUTDIR
set -e
cd "$(dirname "$0")"
out=$1; mkdir -p "$out"
z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $z3/lib/libz3.so ] && [ -e $z3/include/z3.h ]; then # z3 5.3: much better on bit-vectors than the distribution's 4.8
  zinc="-I$z3/include"; zlib="$z3/lib/libz3.so -Wl,-rpath,$z3/lib"
else zinc=; zlib=-lz3; fi
inc="$zinc -I$(llvm-config-18 --includedir)"
pids=()
for f in interp expr solver prep; do
  g++ -O2 -g0 -std=c++17 -w -fno-rtti $inc -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -c $f.cpp -o "$out/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ "$out"/{interp,expr,solver}.o -o "$out/symx.tmp" -L"$(llvm-config-18 --libdir)" -lLLVM-18 $zlib
g++ "$out"/prep.o -o "$out/symx-link.tmp" -L"$(llvm-config-18 --libdir)" -lLLVM-18
mv "$out/symx.tmp" "$out/symx"
mv "$out/symx-link.tmp" "$out/symx-link"
