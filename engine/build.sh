#!/bin/bash
# builds the symbolic executor into $1 (default /verif/.cache/engine)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../.cache/engine}; mkdir -p "$O"
INC=$(/usr/bin/llvm-config-18 --includedir)
for f in expr solver decode interp ext main; do
  /usr/bin/clang++-18 -std=c++17 -O2 -w -I"$INC" -c "$D/$f.cpp" -o "$O/$f.o" &
  pids="$pids $!"
done
for p in $pids; do wait $p; done
/usr/bin/clang++-18 "$O"/{expr,solver,decode,interp,ext,main}.o -o "$O/symex.tmp" -L"$(/usr/bin/llvm-config-18 --libdir)" -lLLVM-18 -lz3 -lpthread
mv "$O/symex.tmp" "$O/symex"
