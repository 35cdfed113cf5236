#!/bin/bash
# setup.sh - checks that the toolchain the simulations need is there.
cd "$(dirname "$0")" || exit 2
mkdir -p build replays evidence
clang++ --version >/dev/null && clang++ -std=c++17 -O1 -fsyntax-only -Isim -I/repo/include sim/rt.cpp
