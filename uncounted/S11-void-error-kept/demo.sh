#!/bin/bash
# Demonstration: builds the library's sources with a stand-in for the solver and
# runs demo.cpp. Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
flags="-std=c++20 -g -O1 -w $(cat "$here/flags" 2>/dev/null)"
inc="-I$here/kit -I$PWD/include -I$PWD/src"
pids=()
for f in $(find "$PWD/src" -name '*.cpp') "$here/kit/mini.cpp" "$here/demo.cpp"; do
  g++ $flags $inc -c "$f" -o "$tmp/$(basename "$f").o" &
  pids+=($!)
done
bad=0; for p in "${pids[@]}"; do wait "$p" || bad=1; done; [ $bad = 0 ] || exit 3
g++ $flags "$tmp"/*.o -o "$tmp/demo" -lpthread || exit 3
cd "$tmp"
ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout -s KILL 120 "$tmp/demo"
