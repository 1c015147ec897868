#!/bin/bash
# Build the analyser into /verif/build (git-ignored).  Nothing is fetched.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build"
cd "$here/build"
src=$here/tools/absint
flags="-std=c++17 -O2 -g1 -fexceptions -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS"
sum=$(cat "$src"/* "$here/tools/setup.sh" | sha256sum | cut -d' ' -f1)
if [ -x absint ] && [ "$(cat absint.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
pids=()
for f in rf val main; do g++ $flags -c "$src/$f.cpp" -o $f.o & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
g++ rf.o val.o main.o -o absint.new -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp
mv absint.new absint
echo "$sum" > absint.sum
