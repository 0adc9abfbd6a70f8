#!/bin/bash
# Run in the repository: builds a small program against it, which fails if the property is broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'find "$tmp" -delete' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml" > "$tmp/Cargo.toml"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$tmp/target}"
cargo build --offline -q
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
