#!/bin/bash
# Builds the program beside this file against the hyper tree in the current directory and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/src" "$tmp/src"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet
timeout 60 "$tmp/target/debug/demo"
