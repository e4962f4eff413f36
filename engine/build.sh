#!/bin/bash
# Builds the symbolic execution engine into /verif/build (offline; LLVM 18 and the z3 of the python venv).
set -e
cd "$(dirname "$0")"; out=../build; mkdir -p $out
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
stamp=$(cat *.cpp *.h build.sh | sha256sum)
[ -x $out/mse ] && [ "$(cat $out/mse.stamp 2>/dev/null)" = "$stamp" ] && exit 0
F="-std=c++17 -O2 -g1 -fno-rtti -w -I/usr/lib/llvm-18/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
tmp=$(mktemp -d $out/bXXXXXX)
for f in expr solver mse; do g++ $F -c $f.cpp -o $tmp/$f.o & done; wait
g++ $tmp/*.o -o $tmp/mse -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lpthread
mv $tmp/mse $out/mse; echo "$stamp" > $out/mse.stamp; rm -r "$(realpath $tmp)"
