#!/bin/bash
# builds the abstract interpreter into /verif/build/vf
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $D/build
clang++-18 ${OPT:--O2} -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -frtti $D/engine/vf.cpp -o $D/build/vf $(llvm-config-18 --ldflags) -lLLVM-18
