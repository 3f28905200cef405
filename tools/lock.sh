#!/bin/bash
# Regenerates farm/Cargo.lock and amm/Cargo.lock (only needed when dependencies
# of the harness change). Cargo cannot resolve the git dependency `decimal`
# offline, so the resolution is made against mirrors of the programs which name
# the stand-in by path, and the source is then written into the lock file.
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/m" "$T/.cargo"
python3 "$V/tools/vendor.py" "$T/vendor"
sed -e "s#.build/vendor#$T/vendor#" -e '/target-dir/d' "$V/.cargo/config.toml" > "$T/.cargo/config.toml"
cp -r "$V/decimal" "$V/svm" "$T/"
for p in farming amm; do
  mkdir -p "$T/m/$p"; cp -r /repo/programs/$p/src "$T/m/$p/"
  sed -e "s#^decimal = .*#decimal = { path = \"$T/decimal\" }#" -e '/^\[dev-dependencies\]/,/^$/d' -e '/^\[\[bench\]\]/,$d' \
    /repo/programs/$p/Cargo.toml > "$T/m/$p/Cargo.toml"
done
for h in farm amm; do
  mkdir -p "$T/$h"; cp -r "$V/$h/src" "$T/$h/"
  sed -e "s#/repo/programs/#$T/m/#" "$V/$h/Cargo.toml" > "$T/$h/Cargo.toml"
  (cd "$T/$h" && cargo generate-lockfile --offline)
  python3 - "$T/$h/Cargo.lock" "$V/$h/Cargo.lock" <<'P'
import sys
s = open(sys.argv[1]).read()
a = 'name = "decimal"\nversion = "0.4.0"\n'
assert a in s
s = s.replace(a, a + 'source = "git+https://github.com/aldrin-exchange/solana-decimal?tag=0.4.0#5a49e0f5f6d6fbb7a43f7821444f64cf973f6956"\n')
open(sys.argv[2], "w").write(s)
P
done
