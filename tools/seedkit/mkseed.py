#!/usr/bin/env python3
"""mkseed.py SPECS.py [ID...]: makes /verif/seeded/<id>/ of each spec (a planted
bug and its demonstration), or only of those named. A file of specs calls
bug(id, prop, prog, needs, breaks, edits, demo): prog is amm or farming, edits
[(file, old, new), ...], demo is Rust, the main.rs after the imports."""
import json, os, re, shutil, subprocess, sys, tempfile

KIT = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(KIT))


def make(g):
    name, prog = g["id"], g["prog"]
    dest = os.path.join(V, "seeded", name)
    shutil.rmtree(dest, ignore_errors=True)
    kit = os.path.join(dest, "kit")
    os.makedirs(os.path.join(kit, "demo", "src"))
    os.makedirs(os.path.join(kit, "demo", ".cargo"))
    os.makedirs(os.path.join(kit, "svm", "src"))
    os.makedirs(os.path.join(kit, "tools"))
    crate = {"amm": "amm", "farming": "farm"}[prog]
    shutil.copytree(os.path.join(V, "decimal"), os.path.join(kit, "decimal"),
                    ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    shutil.copy(os.path.join(V, "tools", "vendor.py"), os.path.join(kit, "tools"))
    for f in ("big.rs", "tok.rs", "vm.rs"):
        shutil.copy(os.path.join(V, "svm", "src", f), os.path.join(kit, "svm", "src"))
    shutil.copy(os.path.join(KIT, "svmlib.rs"), os.path.join(kit, "svm", "src", "lib.rs"))
    shutil.copy(os.path.join(KIT, "svm.toml"), os.path.join(kit, "svm", "Cargo.toml"))
    shutil.copy(os.path.join(KIT, "config.toml"), os.path.join(kit, "demo", ".cargo"))
    shutil.copy(os.path.join(V, crate, "src", "client.rs"), os.path.join(kit, "demo", "src"))
    shutil.copy(os.path.join(KIT, "common_%s.rs" % prog), os.path.join(kit, "demo", "src", "common.rs"))
    if prog == "amm":
        shutil.copy(os.path.join(V, crate, "src", "curve.rs"), os.path.join(kit, "demo", "src"))
    lock = open(os.path.join(V, crate, "Cargo.lock")).read()
    lock = lock.replace('"%scheck"' % crate, '"demo"')
    open(os.path.join(kit, "demo", "Cargo.lock"), "w").write(lock)
    t = open(os.path.join(KIT, "Cargo.toml")).read().replace("@PROG@", prog)
    open(os.path.join(kit, "demo", "Cargo.toml"), "w").write(t)
    d = open(os.path.join(KIT, "demo.sh")).read().replace("@PROG@", prog)
    open(os.path.join(dest, "demo.sh"), "w").write(d)
    os.chmod(os.path.join(dest, "demo.sh"), 0o755)
    head = "#![allow(dead_code, unused_imports)]\nmod client;\nmod common;\n"
    if prog == "amm":
        head += "mod curve;\n"
    open(os.path.join(dest, "demo.rs"), "w").write(head + "use common::*;\n\n" + g["demo"].strip() + "\n")
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]},
              open(os.path.join(dest, "meta.json"), "w"), indent=1)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(["git", "clone", "-q", "/repo", t])
        for path, old, new in g["edits"]:
            p = os.path.join(t, path)
            s = open(p).read()
            assert s.count(old) == 1, (name, path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        for path in {e[0] for e in g["edits"]}:
            if not path.endswith("lib.rs"):
                subprocess.call(["rustfmt", "--edition", "2021", path], cwd=t, stderr=subprocess.DEVNULL)
        diff = subprocess.check_output(["git", "-C", t, "diff"])
    open(os.path.join(dest, "patch.diff"), "wb").write(diff)
    return name


BUGS = []


def bug(id, prop, prog, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop=prop, prog=prog, needs=needs, breaks=breaks, edits=edits, demo=demo))


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"bug": bug})
for b in BUGS:
    if len(sys.argv) == 2 or b["id"] in sys.argv[2:]:
        print(make(b))
