#!/bin/bash
# Runs the scripted scenario in main.rs against the library in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src"
cp "$here/main.rs" "$here/mock.rs" "$work/demo/src/"
cat > "$work/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
libfranka-rs = { path = "$repo" }
nalgebra = "0.23"
libc = "0.2"
EOF
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/demo/Cargo.lock"
cd "$work/demo" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cargo build --offline -q 2> "$work/build.log" || { tail -30 "$work/build.log"; exit 3; }
mkdir "$work/scratch"
export DEMO_DIR="$work/scratch"
if [ -e "$here/model.c" ]; then
  gcc -shared -fPIC -o "$work/model.so" "$here/model.c" || exit 3
  export DEMO_MODEL="$work/model.so"
fi
preload=
if [ -e "$here/shim.c" ]; then
  gcc -w -shared -fPIC -o "$work/shim.so" "$here/shim.c" -ldl || exit 3
  preload="$work/shim.so"
fi
LD_PRELOAD="$preload" timeout 120 "$work/target/debug/demo"
