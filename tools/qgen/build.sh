#!/bin/bash
# build.sh OUT: builds the generator of behaviour-preserving rewritings
set -e
here=$(cd "$(dirname "$0")" && pwd)
L=$(llvm-config-18 --libdir)
clang++ -O1 -std=c++17 -fno-rtti -w $(llvm-config-18 --cppflags) -D_GNU_SOURCE "$here/qgen.cpp" -o "$1" -L"$L" -l:libclang-cpp.so.18.1 -lLLVM-18
