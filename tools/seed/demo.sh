#!/bin/bash
# Compiles the library in the current tree with the stand-in dependencies beside this file and runs
# demo.rs against it. Exit 0: the property holds in the demonstrated situation.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/llamapun-demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src"
cp -r "$here/stubs" "$here/shim" "$work/"
cp "$here/demo.toml" "$work/demo/Cargo.toml"
cp "$here/demo.lock" "$work/demo/Cargo.lock"
cp "$here/demo.rs" "$work/demo/src/main.rs"
cp "$here/common.rs" "$work/demo/src/common.rs"
cd "$work/demo" || exit 2
unset RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=$work/target RUSTFLAGS="--cap-lints allow" TMPDIR=$work
cargo build --offline -q 2>"$work/log" || { cat "$work/log"; exit 3; }
timeout 120 "$work/target/debug/demo"
