#!/bin/bash
# Builds demo.cpp against the library of the current tree and runs it.
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -g -w -I/repo/src -I/repo/include -I/repo/test -I/repo/third_party/roaring_bitmap \
  -I/repo/third_party/xxhash "$d/demo.cpp" -o "$t/demo" -Wl,--start-group \
  $(find /repo/_build -maxdepth 3 -name '*.a') -Wl,--end-group -lfmt -ltbb -lpthread -ldl
cd "$t"
timeout 120 "$t/demo"
