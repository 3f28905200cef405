#!/usr/bin/env python3
"""Builds an offline cargo directory source out of the registry caches of this
sandbox plus the `decimal` stand-in of /verif/decimal. Nothing is fetched.

    vendor.py OUT [Cargo.lock ...]

With lock files given only the crates they name are unpacked."""
import hashlib, json, os, re, shutil, sys, tarfile

CACHE = os.path.expanduser("~/.cargo/registry/cache")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]


def main():
    wanted = None
    if sys.argv[2:]:
        wanted = set()
        for lock in sys.argv[2:]:
            for n, v in re.findall(r'^name = "(.*)"\nversion = "(.*)"', open(lock).read(), re.M):
                wanted.add(n + "-" + v)
    os.makedirs(OUT, exist_ok=True)
    for cache in sorted(os.listdir(CACHE)):
        d = os.path.join(CACHE, cache)
        for name in sorted(os.listdir(d)):
            if not name.endswith(".crate"):
                continue
            stem = name[:-6]
            if wanted is not None and stem not in wanted:
                continue
            dest = os.path.join(OUT, stem)
            if os.path.exists(os.path.join(dest, ".cargo-checksum.json")):
                continue
            path = os.path.join(d, name)
            sha = hashlib.sha256(open(path, "rb").read()).hexdigest()
            with tarfile.open(path) as t:
                t.extractall(OUT, filter="data")
            with open(os.path.join(dest, ".cargo-checksum.json"), "w") as f:
                json.dump({"files": {}, "package": sha}, f)
    dest = os.path.join(OUT, "decimal")
    src = os.path.join(HERE, "decimal")
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(src, dest, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    with open(os.path.join(dest, ".cargo-checksum.json"), "w") as f:
        json.dump({"files": {}, "package": None}, f)


main()
