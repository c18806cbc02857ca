#!/bin/bash
# Demonstration: compiles the crate with a recording mock in place of the C++ half
# and runs demo.rs, which is a module of it. Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
r="rustc --edition 2021 --cap-lints allow --out-dir $tmp -L $tmp"
$r --crate-type proc-macro --crate-name cxx_macro "$here/kit/cxx_macro.rs" || exit 3
$r --crate-type rlib --crate-name cxx --extern cxx_macro="$tmp/libcxx_macro.so" "$here/kit/cxx.rs" || exit 3
{ echo "#[path = \"$here/demo.rs\"] mod demo;"; echo 'fn main() { std::process::exit(demo::demo()); }'; } > "$tmp/tail.rs"
cat "$PWD/src/lib.rs" "$tmp/tail.rs" > "$tmp/main.rs"
MOCK_FFI="$here/kit/ffi.rs" $r --crate-type bin --crate-name demo --extern cxx="$tmp/libcxx.rlib" "$tmp/main.rs" || exit 3
timeout -s KILL 120 "$tmp/demo"
