#!/bin/bash
# builds the rewriting tool into $1
L=/usr/lib/llvm-18/lib
cd "$(dirname "$0")" && clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS refactor.cpp -o "$1" $L/libclang-cpp.so.18.1 $L/libLLVM.so.18.1
