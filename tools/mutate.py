#!/usr/bin/env python3
"""Mutates one program in scratch copies and runs the checks against each mutant.

    mutate.py farming|amm WORKDIR [--jobs N] [--scale X] [--every K] [--list] [--only ID,...]

Results are appended to WORKDIR/<program>.jsonl, so that a run can be resumed.
Nothing in /repo or /verif is touched. It is a tool for finding gaps in the
checks; no check uses it."""
import argparse, json, os, re, shutil, subprocess, sys, threading, time, random

HERE = os.environ.get("VERIF_HERE") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mask(src):
    """same length, comments and strings blanked"""
    out = list(src)
    i, n = 0, len(src)
    while i < n:
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            for k in range(i, j):
                out[k] = " "
            i = j
        elif src.startswith("/*", i):
            j = src.find("*/", i) + 2
            for k in range(i, j):
                if src[k] != "\n":
                    out[k] = " "
            i = j
        elif src[i] == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            for k in range(i + 1, j):
                if src[k] != "\n":
                    out[k] = "_"
            i = j + 1
        else:
            i += 1
    return "".join(out)


SUBS = [
    (r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]),
    (r"\btry_ceil\b", ["try_floor", "try_round"]), (r"\btry_floor\b", ["try_ceil", "try_round"]),
    (r"\btry_round\b", ["try_floor", "try_ceil"]),
    (r"\btry_add\b", ["try_sub"]), (r"\btry_sub\b", ["try_add"]), (r"\btry_mul\b", ["try_div"]), (r"\btry_div\b", ["try_mul"]),
    (r"\bchecked_add\b", ["checked_sub"]), (r"\bchecked_sub\b", ["checked_add"]),
    (r"\bsaturating_sub\b", ["saturating_add"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\.rev\(\)", [""]), (r"\.last\(\)", [".first()"]), (r"\.first\(\)", [".last()"]),
    (r"\.skip\((\w+)\)", [".skip(\\1 + 1)"]), (r"\.take\((\w+)\)", [".take(\\1 - 1)"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]),
    (r"\bif (?!let)", ["if true || ", "if false && "]),
    (r"\bif !", ["if "]),
    (r"(?<![\w.])(\d+)(?![\w.])", ["+1", "-1"]),
    (r"\bSigner<'info>", ["AccountInfo<'info>", "UncheckedAccount<'info>"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"\?;$", [".ok();"]),
]
SWAPS = [("staked", "vested"), ("source", "target"), ("start", "end"), ("buy", "sell"), ("starts_at", "ends_at"),
         ("stake_vault", "harvest_vault"), ("minuend", "subtrahend"), ("starts_at", "slot"), ("admin", "authority"),
         ("max", "min"), ("reserve_tokens", "deposit_tokens"), ("sold", "bought")]


def fns_end(m):
    k = re.search(r"#\[cfg\(test\)\]", m)
    return k.start() if k else len(m)


def statements(m, end):
    """(start, stop) of statements inside functions which stand on lines of their own"""
    for k in re.finditer(r"^([ \t]{4,})(?!let |use |return|msg!|pub |fn |//|#|\}|\)|const |type |impl|if |for |match |while |loop|else)([a-zA-Z_*(])", m[:end], re.M):
        i = k.start(2)
        prev = m[:k.start()].rstrip()
        if not prev or prev[-1] not in ";{}":
            continue
        d = 0
        j = i
        while j < end:
            ch = m[j]
            if ch in "([{":
                d += 1
            elif ch in ")]}":
                d -= 1
                if d < 0:
                    break
            elif ch == ";" and d == 0:
                yield i, j + 1
                break
            elif ch == "," and d == 0:
                break
            j += 1
        # also calls of macros / blocks
    for k in re.finditer(r"^([ \t]{4,})(if [^{]*)\{", m[:end], re.M):
        i = k.start(2)
        d, j = 0, k.end() - 1
        while j < end:
            if m[j] == "{":
                d += 1
            elif m[j] == "}":
                d -= 1
                if d == 0:
                    break
            j += 1
        rest = m[j + 1:j + 8]
        prev = m[:k.start()].rstrip()
        if prev and prev[-1] in ";{}" and "else" not in rest and not rest.lstrip().startswith("}"):
            yield i, j + 1


def constraints(m, end):
    for k in re.finditer(r"#\[account\(", m[:end]):
        i = k.end()
        d, j, start = 1, i, i
        parts = []
        while d > 0:
            ch = m[j]
            if ch in "([{":
                d += 1
            elif ch in ")]}":
                d -= 1
                if d == 0:
                    parts.append((start, j))
            elif ch == "," and d == 1:
                parts.append((start, j))
                start = j + 1
            elif ch == "<":
                pass
            j += 1
        for a, b in parts:
            if m[a:b].strip():
                yield a, min(b + 1, j - 1) if m[b] == "," else b
        seeds = [p for p in parts if m[p[0]:p[1]].strip().startswith(("seeds", "bump"))]
        if len(seeds) == 2:
            yield seeds[0][0], seeds[1][1] + (1 if m[seeds[1][1]] == "," else 0)


def mutants(repo, prog):
    base = os.path.join(repo, "programs", prog, "src")
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if not f.endswith(".rs") or f == "tests.rs":
                continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, repo)
            src = open(path).read()
            m = mask(src)
            end = fns_end(m)
            seen = set()

            def put(a, b, new, op):
                text = src[:a] + new + src[b:]
                if text in seen or src[a:b] == new:
                    return None
                seen.add(text)
                line = src.count("\n", 0, a) + 1
                return {"file": rel, "line": line, "op": op, "old": src[a:b][:120], "new": new[:120], "a": a, "b": b, "text": new}
            for pat, news in SUBS:
                for k in re.finditer(pat, m[:end], re.M):
                    for new in news:
                        if new in ("+1", "-1"):
                            v = int(k.group(1)) + int(new)
                            if v < 0:
                                continue
                            t = str(v)
                        else:
                            t = k.expand(new) if "\\" in new else new
                        if pat == r"\?;$":
                            pass
                        r = put(k.start(), k.end(), t, pat)
                        if r:
                            yield r
            for x, y in SWAPS:
                for p, q in ((x, y), (y, x)):
                    for k in re.finditer(r"(?<=[._])%s(?=[._\b(]|\b)|\b%s\b" % (p, p), m[:end]):
                        r = put(k.start(), k.end(), q, "swap")
                        if r:
                            yield r
            for a, b in statements(m, end):
                r = put(a, b, "", "delete statement")
                if r:
                    yield r
            for a, b in constraints(m, end):
                r = put(a, b, "", "delete constraint")
                if r:
                    yield r


def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prog", choices=["farming", "amm"])
    ap.add_argument("work")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--scale", default="0.02,0.15")
    ap.add_argument("--all", action="store_true", help="all checks, not up to the first which catches it")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--files", default="")
    ap.add_argument("--redo", default="", help="mutants which survived in this results file")
    a = ap.parse_args()
    ms = list(mutants("/repo", a.prog))
    if a.files:
        ms = [x for x in ms if any(f in x["file"] for f in a.files.split(","))]
    key = lambda x: "%s:%d:%s:%s->%s" % (x["file"], x["a"], x["op"], x["old"], x["new"])
    for x in ms:
        x["key"] = key(x)
    random.Random(7).shuffle(ms)
    if a.redo:
        keep = {r["key"] for r in map(json.loads, open(a.redo)) if r["status"] == "survived"}
        ms = [x for x in ms if x["key"] in keep]
    if a.sample:
        ms = ms[:a.sample]
    if a.list:
        for x in ms:
            print(x["file"], x["line"], x["op"], repr(x["old"]), "->", repr(x["new"]))
        print(len(ms))
        return
    os.makedirs(a.work, exist_ok=True)
    out = os.path.join(a.work, a.prog + ("-redo" if a.redo else "") + ("-all" if a.all else "") + ".jsonl")
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["key"] for l in open(out)}
    todo = [x for x in ms if x["key"] not in done]
    print(len(ms), "mutants,", len(todo), "to do", flush=True)
    crate, binary, letter = ("farm", "farmcheck", "F") if a.prog == "farming" else ("amm", "ammcheck", "A")
    ids = ["%s%02d" % (letter, i) for i in range(1, 19)] + [p for p in os.environ.get("MUT_EXTRA", "").split(",") if p]
    lock = threading.Lock()
    hits = {i: 1 for i in ids}

    def worker(w):
        d = os.path.join(a.work, "w%s%d" % (letter, w))
        repo, ver = d + "/repo", d + "/verif"
        if not os.path.exists(d):
            os.makedirs(ver)
            subprocess.check_call(["git", "clone", "-q", "/repo", repo])
            for x in ("svm", "farm", "amm", "decimal", "regressions"):
                shutil.copytree(os.path.join(HERE, x), os.path.join(ver, x), ignore=shutil.ignore_patterns("target"))
            shutil.copy(os.path.join(HERE, "known_findings.txt"), ver)
            shutil.copytree(os.path.join(HERE, ".cargo"), os.path.join(ver, ".cargo"))
            os.makedirs(ver + "/.build")
            os.symlink(os.path.join(HERE, ".build/vendor"), ver + "/.build/vendor")
            subprocess.call(["cp", "-a", os.path.join(HERE, ".build/target"), ver + "/.build/target"])
            for x in ("farm", "amm"):
                p = os.path.join(ver, x, "Cargo.toml")
                s = open(p).read().replace('"/repo/programs', '"%s/programs' % repo)
                s += "\n[profile.release.package.%s]\nopt-level = 2\ndebug = 0\n[profile.release.package.%s]\ndebug = 0\n" % ({"farm": "farmcheck", "amm": "ammcheck"}[x], {"farm": "farming", "amm": "amm"}[x])
                open(p, "w").write(s)
        env = {"VERIF_ROOT": ver, "VERIF_SEED": "1", "VERIF_NOSHRINK": "1", "CARGO_INCREMENTAL": "1"}
        while True:
            with lock:
                if not todo:
                    return
                x = todo.pop()
            p = os.path.join(repo, x["file"])
            orig = open(os.path.join("/repo", x["file"])).read()
            open(p, "w").write(orig[:x["a"]] + x["text"] + orig[x["b"]:])
            t = time.time()
            rc, log = sh(["cargo", "build", "--offline", "--release", "-q"], os.path.join(ver, crate), 600, env)
            res = {k: x[k] for k in ("key", "file", "line", "op", "old", "new")}
            if rc != 0:
                res["status"] = "uncompilable"
            else:
                killed, odd = [], []
                order = sorted(ids, key=lambda i: -hits[i]) if not a.all else ids
                for i, sc in [(i, sc) for sc in a.scale.split(",") for i in order]:
                    if i in killed:
                        continue
                    env["VERIF_SCALE"] = sc
                    rc, log = sh([os.path.join(ver, ".build/target/release", binary), i], ver, 300, env)
                    if rc == 1:
                        killed.append(i)
                        hits[i] += 1
                        if not a.all:
                            break
                    elif rc != 0:
                        odd.append([i, rc])
                res["status"] = "killed" if killed else "survived"
                res["by"] = killed
                if odd:
                    res["odd"] = odd
            open(p, "w").write(orig)
            res["s"] = round(time.time() - t, 1)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(res) + "\n")

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
