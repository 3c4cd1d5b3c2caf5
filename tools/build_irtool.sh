#!/bin/sh
# build_irtool.sh OUT : builds the IR normaliser/dumper
here=$(cd "$(dirname "$0")" && pwd)
exec clang++-18 -O1 "$here/irtool.cc" -o "$1" -I/usr/lib/llvm-18/include -std=c++17 -fno-exceptions -fno-rtti -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -L/usr/lib/llvm-18/lib -lLLVM-18
