#!/bin/bash
# builds the small program beside this script against /repo's headers and library, and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w -DGC_HAVE_SUITESPARSE -DNOMINMAX -D_USE_MATH_DEFINES -I"$R/include" -I"$R/deps/nanort/include" \
  -I"$R/deps/nanoflann/include" -isystem /usr/include/eigen3 -isystem /usr/include/suitesparse "$D/demo.cpp" \
  "$R/_build/lib/libgeometry-central.a" -lspqr -lumfpack -lcholmod -lccolamd -lcamd -lcolamd -lamd -llapack -lblas -lsuitesparseconfig \
  -o "$W/demo" || exit 3
cd "$W" && timeout 120 ./demo
