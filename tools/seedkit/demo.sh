#!/bin/bash
# Builds the program from the working tree (cwd) together with a model of the
# runtime and plays the scenario of demo.rs against it. Everything is written
# to a scratch directory. Exit 0: the property held in the scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/kit/." "$work/"
cp "$here/demo.rs" "$work/demo/src/main.rs"
cp -r "$repo/programs/@PROG@" "$work/program"
cd "$work/demo" || exit 3
python3 ../tools/vendor.py "$work/vendor" Cargo.lock || exit 3
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
if ! cargo build --offline -q > build.log 2>&1; then
  tail -30 build.log
  exit 4
fi
timeout 120 "$work/target/debug/demo"
