#!/bin/bash
# Run with cwd = the repository. Builds the library and the demonstration beside
# this script in a scratch directory; exit 0: behaves as it should.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
flags="-std=c++20 -O1 -ffp-contract=off -w -I$here/shim -I$repo"
find ink_stroke_modeler -name '*.cc' ! -name '*_test.cc' ! -name type_matchers.cc > "$work/srcs"
echo "$here/demo.cc" >> "$work/srcs"
nl -w1 -s' ' "$work/srcs" | xargs -P 8 -L 1 bash -c 'clang++-18 '"$flags"' -c "$1" -o "'"$work"'/$0.o"'
clang++-18 "$work"/*.o -o "$work/demo" $(pkg-config --libs absl_status absl_statusor absl_strings absl_str_format) -lpthread
timeout 60 "$work/demo"
