#!/bin/bash
# mt_build.sh SRC OUT FLAGS... : the workload is instrumented, the runtime is not
set -e
src=$1; out=$2; shift 2
dir=$(dirname "$src"); tmp=$(mktemp -d "$out.XXXXXX"); trap 'rm -rf "$tmp"' EXIT
clang++ -std=c++17 -O2 -w -c "$dir/mt_rt.cpp" -o "$tmp/rt.o" "$@"
clang++ -std=c++17 -O1 -g0 -w -fsanitize=thread -c "$src" -o "$tmp/m.o" "$@"
clang++ -no-pie "$tmp/m.o" "$tmp/rt.o" -o "$out"
