#!/bin/bash
# Builds the symbolic executor into /verif/build (also done on demand by the checks).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build"
h=$(cat "$V"/engine/* | sha256sum | cut -c1-16)
if [ -x "$V/build/gsx" ] && [ "$(cat "$V/build/gsx.hash" 2>/dev/null)" = "$h" ]; then exit 0; fi
cd "$V/engine"
g++ -O2 -std=c++17 -w -I/usr/lib/llvm-18/include -fno-rtti -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
	-D__STDC_LIMIT_MACROS -D_GNU_SOURCE gsx.cpp -o "$V/build/gsx.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$V/build/gsx.$$" "$V/build/gsx"
echo "$h" > "$V/build/gsx.hash"
