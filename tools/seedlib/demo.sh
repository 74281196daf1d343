#!/bin/bash
# Builds the demonstration against the working tree (the current directory) and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'cd /; rm -rf "$t"' EXIT
g++ $(sed -n "s|^// FLAGS: ||p" "$d/demo.cpp") -std=c++17 -O1 -g -w -include cstdint -fopenmp -DCPP -I"$d" -I. -I./GraphBLAS/Include -I./GTgraph/sprng2.0-lite/include "$d/demo.cpp" -o "$t/demo" || { echo "demo does not compile"; exit 2; }
export OMP_WAIT_POLICY=passive OMP_DYNAMIC=false
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
