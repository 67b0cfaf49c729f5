#!/bin/bash
# Builds demo.cpp against the headers of the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
python3 "$here/mkoverlay.py" "$t/overlay"
clang++ -std=c++20 -O0 -I "$t/overlay" -I include -w -DFITORIA_HAS_FMT -DFITORIA_HAS_ZLIB -DFITORIA_HAS_BROTLI @FLAGS@ \
  "$here/demo.cpp" -o "$t/demo" -lfmt -lz -lbrotlidec -lbrotlienc -lboost_url -lboost_json -lboost_regex @LIBS@ -lpthread
cd "$t"
timeout 100 ./demo
