#!/bin/bash
# builds the symbolic executor into /verif/build/symx (skipped when up to date)
set -e
D=$(cd "$(dirname "$0")/.." && pwd); B=${SX_BUILD:-$D/build}; mkdir -p "$B"
S=$(cat "$D"/engine/symx.cpp "$D"/engine/exec.inc "$D"/engine/bdd.h "$D"/engine/build.sh | sha256sum | cut -c1-32)
[ -x "$B/symx" ] && [ "$(cat "$B/symx.stamp" 2>/dev/null)" = "$S" ] && exit 0
clang++-18 -O2 -std=c++17 "$D/engine/symx.cpp" -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions -w -o "$B/symx.tmp$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$B/symx.tmp$$" "$B/symx"; echo "$S" > "$B/symx.stamp"
