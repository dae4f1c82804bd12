#!/bin/bash
# cc.sh in out: compile a runtime-model file to bitcode
exec /usr/bin/clang++-18 -std=c++14 -O1 -gline-tables-only -fno-access-control -fno-vectorize -fno-slp-vectorize -w -U__OPTIMIZE__ -emit-llvm -c "$1" -o "$2"
