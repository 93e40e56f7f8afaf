"""Decides client programs by type and borrow checking them against the library."""
import concurrent.futures as cf
import glob
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/compile")
import cases as K  # noqa: E402


def source(feats, body):
    s = K.PRELUDE
    if "error" in feats:
        s += K.ERR
    if "serde1" in feats:
        s += K.SERDE
    if "sval2" in feats:
        s += K.SVAL
    return s + body + "\n"


def check(e, d, ex, name, src):
    """Errors of one program: a list of (code, line, message)."""
    f = f"{d}/{name.replace('/', '_')}.rs"
    with open(f, "w") as o:
        o.write(src)
    r = subprocess.run(
        ["rustc", "+nightly", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json", "-Awarnings",
         "--out-dir", d, "--crate-name", "c_" + name.replace("/", "_").replace("-", "_")] + ex + [f],
        env=e, cwd="/", capture_output=True, text=True)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        code = (m.get("code") or {}).get("code") or ("lifetime" if "lifetime may not live long enough" in m["message"] or "lifetime errors were found" in m["message"] or "does not live long enough" in m["message"] else "")
        errs.append((code, m["spans"][0]["line_start"] if m["spans"] else 0, m["message"]))
    if (r.returncode == 0) != (not errs):
        errs.append(("?", 0, r.stderr[-300:]))
    return errs


def externs(d):
    """Arguments naming the compiled library and its dependencies."""
    ex, dirs = [], set()
    for p in glob.glob(f"{d}/debug/**/*.rmeta", recursive=True) + glob.glob(f"{d}/debug/**/*.so", recursive=True):
        dirs.add(os.path.dirname(p))
    for lib in ("value_bag", "value_bag_serde1", "value_bag_sval2"):
        for p in glob.glob(f"{d}/debug/**/lib{lib}-*.rmeta", recursive=True):
            ex += ["--extern", f"{lib}={p}"]
    for p in sorted(dirs):
        ex += ["-L", f"dependency={p}"]
    return ex


def wanted(features, cfg):
    have = set(cfg.split())
    return all((f[3:] not in have) if f.startswith("no:") else f in have for f in features)


def run(e, d, cfg):
    """Report in the shape the obligations have."""
    ex = externs(d)

    def one(c):
        name, feats, bad, good, codes = c
        have = cfg.split()
        o = {"name": name, "ok": True, "undecided": False, "detail": [], "keys": [], "impl_parts": 0, "spec_parts": 0, "compared": 2, "functions": 0}
        g = check(e, d, ex, name + "/accepted", source(have, good))
        b = check(e, d, ex, name + "/rejected", source(have, bad))
        strange = [x for x in g if x[0] not in codes]
        if strange:
            o["undecided"] = True
            o["keys"].append("undecided")
            o["detail"].append(f"the accepted program does not compile: {strange[0][0]} {strange[0][2]}: {good}")
        elif g:
            o["ok"] = False
            o["keys"].append("accepted")
            o["detail"].append(f"a program that must be accepted is rejected: {g[0][0]} {g[0][2]}: {good}")
        if not b:
            o["ok"] = False
            o["keys"].append("rejected")
            o["detail"].append(f"a program that must be rejected is accepted: {bad}")
        elif not g and [x for x in b if x[0] not in codes]:
            x = [x for x in b if x[0] not in codes][0]
            o["undecided"] = True
            o["keys"].append("undecided")
            o["detail"].append(f"the rejected program is rejected for another reason: {x[0]} {x[2]}: {bad}")
        o['detail'] = [x.split('\n')[0] for x in o['detail']]
        return o
    todo = [c for c in K.CASES if wanted(c[1], cfg)]
    with cf.ThreadPoolExecutor(6) as pool:
        return list(pool.map(one, todo))
