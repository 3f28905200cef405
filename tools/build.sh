#!/bin/bash
# build.sh CRATE BIN PROGRAM: builds one harness against /repo's working tree.
set -eu
cd "$(dirname "$(readlink -f "$0")")/.."
mkdir -p .build
exec 9> .build/lock
flock 9
want=$(cat farm/Cargo.lock amm/Cargo.lock decimal/src/lib.rs tools/vendor.py | sha256sum)
if [ "$(cat .build/vendor.stamp 2>/dev/null)" != "$want" ]; then
  python3 tools/vendor.py .build/vendor farm/Cargo.lock amm/Cargo.lock
  echo "$want" > .build/vendor.stamp
fi
# never trust modification times alone for the code under test
now=$(cd "/repo/programs/$3" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat ".build/$3.stamp" 2>/dev/null)" != "$now" ]; then
  rm -f ".build/$3.stamp"
  (cd "$1" && cargo clean --offline --locked --release -p "$3" -q 2>/dev/null) || true
fi
(cd "$1" && cargo build --offline --locked --release -q 2> ../.build/$1.log) || { cat ".build/$1.log" >&2; exit 2; }
echo "$now" > ".build/$3.stamp"
