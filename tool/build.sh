#!/bin/bash
# builds the extractor into $1
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18/lib
clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS extract.cpp -o "$1.tmp$$" $L/libclang-cpp.so.18.1 $L/libLLVM.so.18.1
mv "$1.tmp$$" "$1"
