#!/bin/bash
# builds the symbolic executor into /verif/.build (ignored by git); no-op when up to date
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$here/../.build; mkdir -p "$out"
sum=$(cat "$here"/*.cpp "$here"/*.h "$here"/build.sh | sha256sum | cut -d' ' -f1)
[ -x "$out/nsym" ] && [ "$(cat "$out/nsym.sum" 2>/dev/null)" = "$sum" ] && exit 0
tmp=$(mktemp -d "$out/eb.XXXXXX"); trap 'rm -rf "$tmp"' EXIT
inc=$(llvm-config-18 --includedir 2>/dev/null || echo /usr/lib/llvm-18/include)
lib=$(llvm-config-18 --libdir 2>/dev/null || echo /usr/lib/llvm-18/lib)
for f in expr nsym; do g++ -std=c++17 -O2 -w -fno-exceptions -I"$inc" -c "$here/$f.cpp" -o "$tmp/$f.o" -fexceptions & done; wait
g++ "$tmp/expr.o" "$tmp/nsym.o" -L"$lib" -lLLVM-18 -lz3 -o "$tmp/nsym"
mv "$tmp/nsym" "$out/nsym"; echo "$sum" > "$out/nsym.sum"
