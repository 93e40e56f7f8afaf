#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree.

Compiles /repo and the witness crate with the analysis driver as compiler wrapper, once per
feature configuration, and reports every obligation the analysis refutes.
Exit 0: all obligations discharged. Exit 1: a violation. Exit 2: no answer.
"""
import concurrent.futures as cf
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = f"{V}/vbai/target/release/vbai"
FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Awarnings"
sys.path.insert(0, f"{V}/tools")
import compiles  # noqa: E402
from props import CONFIGS, FLOORS, PROPS, TRUSTED  # noqa: E402


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, cwd="/")
    e["LD_LIBRARY_PATH"] = root.stdout.strip() + "/lib"
    e["RUST_MIN_STACK"] = "4000000000"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sh(cmd, e, cwd, **kw):
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver(e):
    os.makedirs(f"{V}/target", exist_ok=True)
    with open(f"{V}/target/driver.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(["cargo", "+nightly", "build", "--release", "--offline", "-q"], e, f"{V}/vbai")
    if r.returncode:
        raise RuntimeError("driver does not build:\n" + r.stdout)


def cargo_env(e, target):
    e = dict(e)
    e["CARGO_TARGET_DIR"] = target
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["RUSTFLAGS"] = FLAGS
    return e


def base(e, cfg):
    """Target directory holding the third-party dependencies of one configuration."""
    t = f"{V}/target/base-{cfg}"
    with open(f"{V}/target/base-{cfg}.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(f"{t}/ready"):
            c = cargo_env(e, t)
            c["VBAI_PROP"] = "none"
            r = sh(["cargo", "+nightly", "check", "--offline", "-q", "--lib", "--features", CONFIGS[cfg]], c, f"{V}/witness")
            # a tree that does not compile leaves the dependencies built all the same
            if r.returncode == 0:
                open(f"{t}/ready", "w").close()
    return t


def run(e, prop, cfg, shard="0/1"):
    b = base(e, cfg)
    t = tempfile.mkdtemp(prefix=f"run-{prop}-{cfg}-", dir=f"{V}/target")
    try:
        if os.path.isdir(f"{b}/debug"):
            shutil.copytree(f"{b}/debug", f"{t}/debug", symlinks=True, dirs_exist_ok=True)
        c = cargo_env(e, t)
        out = f"{t}/out.json"
        c["VBAI_PROP"] = "none" if PROPS[prop].get("compile") else prop
        c["VBAI_OUT"] = out
        c["VBAI_SHARD"] = shard
        pk = ["value-bag", "witness"]
        pk += ["value-bag-serde1"] if "serde1" in CONFIGS[cfg] else []
        pk += ["value-bag-sval2"] if "sval2" in CONFIGS[cfg] else []
        args = [x for p in pk for x in ("-p", p)]
        sh(["cargo", "+nightly", "clean", "--offline", "-q"] + args, c, f"{V}/witness")
        fs = CONFIGS[cfg] + (" bare" if PROPS[prop].get("compile") else "")
        r = sh(["cargo", "+nightly", "check", "--offline", "-q", "--lib", "--features", fs], c, f"{V}/witness")
        if r.returncode or not os.path.exists(out):
            raise RuntimeError(f"[{cfg}] the analysis did not finish:\n{r.stdout[-6000:]}")
        r = json.load(open(out))
        if PROPS[prop].get("compile"):
            r["obligations"] = compiles.run(e, t, CONFIGS[cfg])
        return r
    finally:
        shutil.rmtree(t, ignore_errors=True)


def known(prop):
    ks = {}
    p = f"{V}/known-findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or not l.startswith("{"):
                continue
            k = json.loads(l)
            if k["property"] == prop:
                ks[(k["obligation"], k["key"])] = k["what"]
    return ks


def join(res, cfg, r):
    """Adds the report of one shard to the report of its configuration."""
    if cfg not in res:
        res[cfg] = r
        return
    a = res[cfg]
    for k, v in r.items():
        if k == "repo_functions":
            a[k] = sorted(set(a[k]) | set(v))
        elif k == "repo_blocks":
            a[k] = max(a[k], v)
        else:
            a[k] += v


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    P = PROPS[prop]
    cfgs = P["configs"] if tier == "quick" else P.get("thorough", list(CONFIGS))
    e = env()
    build_driver(e)
    res, errs = {}, []
    n = P.get("shards", 1)
    with cf.ThreadPoolExecutor(7) as ex:
        fs = {ex.submit(run, e, prop, c, f"{i}/{n}"): c for i in range(n) for c in cfgs}
        for f in cf.as_completed(fs):
            try:
                join(res, fs[f], f.result())
            except Exception as x:
                errs.append(str(x))
    ks = known(prop)
    viol, kn, und, total, done = [], [], [], 0, 0
    fns, models, per = set(), {}, {}
    tot = dict(impl_partitions=0, spec_partitions=0, compared=0, calls=0, loops_widened=0, loops_unfolded=0, merges=0)
    blocks = 0
    samples = []
    for c in cfgs:
        if c not in res:
            continue
        r = res[c]
        obs = r["obligations"]
        per[c] = len(obs)
        floor = FLOORS.get(prop, {}).get(c)
        if floor is not None and len(obs) < floor:
            errs.append(f"[{c}] {len(obs)} obligations found, at least {floor} expected")
        if not obs:
            errs.append(f"[{c}] no obligations found")
        for o in obs:
            total += 1
            keys = set(o["keys"])
            if o["ok"] and not o["undecided"]:
                done += 1
            elif not o["ok"]:
                un = [k for k in o["keys"] if (o["name"], k) not in ks and not k.startswith("undecided")]
                for k in o["keys"]:
                    if (o["name"], k) in ks:
                        kn.append((o["name"], k, ks[(o["name"], k)]))
                if un:
                    viol.append((c, o))
                elif o["undecided"]:
                    und.append((c, o))
            else:
                und.append((c, o))
        fns |= set(r["repo_functions"])
        blocks = max(blocks, r["repo_blocks"])
        for k in tot:
            tot[k] += r[k]
        for m in r["models"]:
            n, x = m.rsplit(" x", 1)
            models[n] = models.get(n, 0) + int(x)
        for o in obs[:3]:
            samples.append(f"[{c}] {o['name']}: {o['impl_parts']} behaviours of the code against {o['spec_parts']} of the reference, {o['functions']} repository functions")
    os.makedirs(f"{V}/evidence", exist_ok=True)
    if P.get("compile"):
        cov = {
            "explanation": "Type and borrow checking of client programs against the library's current source. Each obligation is a program the compiler must reject, for a lifetime, borrow or bound reason, with a twin it must accept that differs only in the lifetime, type or bound at stake. Nothing is run.",
            "obligations": total,
            "discharged": done,
            "obligations_per_configuration": per,
            "programs_checked": 2 * total,
            "samples": [f"{c[0]}: rejected: {c[2]}" for c in compiles.K.CASES[:6]],
        }
    else:
        cov = {
            "explanation": {
                "C19": "Abstract interpretation of the type-checked, monomorphic MIR of the library reached from each use of the public API in the witness crate. A use is discharged when no abstract behaviour of the library reaches undefined behaviour: access out of bounds, to dead or uninitialised storage, at another type, or bytes used as text that may not be whole characters.",
                "C20": "Abstract interpretation of the type-checked, monomorphic MIR of the library reached from each use of the public API in the witness crate. A use is discharged when no abstract behaviour of the library panics where the reference behaviour returns.",
            }.get(prop, "Abstract interpretation of the type-checked, monomorphic MIR of the library reached from each obligation. An obligation is a use of the public API paired with the behaviour it must have for all inputs; it is discharged when every abstract behaviour of the code that is compatible with a behaviour of the reference has the same result, the same calls into user code and no undefined behaviour."),
            "obligations": total,
            "discharged": done,
            "obligations_per_configuration": per,
            "repository_functions_analysed": len(fns),
            "repository_basic_blocks_analysed": blocks,
            "code_behaviours": tot["impl_partitions"],
            "reference_behaviours": tot["spec_partitions"],
            "behaviour_pairs_compared": tot["compared"],
            "calls_interpreted": tot["calls"],
            "loops_widened": tot["loops_widened"],
            "loops_unfolded": tot["loops_unfolded"],
            "state_merges": tot["merges"],
            "library_models_used": len(models),
            "known_findings_seen": len(set(kn)),
            "functions": sorted(fns)[:400],
            "samples": samples,
        }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": cov,
        "assumptions": TRUSTED[:1] if P.get("compile") else TRUSTED,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for n, k, w in sorted(set(kn)):
        print(f"KNOWN-FINDING: property={prop} {w} [{n}]")
    print(f"{prop}: {done}/{total} obligations discharged over {len(res)} configurations, {len(fns)} repository functions, {round(time.time() - t0, 1)} s")
    if viol:
        rp = f"{V}/evidence/{prop}.violation.txt"
        with open(rp, "w") as f:
            for c, o in viol:
                where = "compile/cases.py" if P.get("compile") else f"witness/src/{o['name'].split('::')[0]}.rs"
                f.write(f"[{c}] obligation {o['name']} ({where})\n")
                for d in o["detail"]:
                    f.write(f"    {d}\n")
            f.write(f"\nrepeat: {V}/check.sh {prop}\n")
        for c, o in viol[:8]:
            print(f"[{c}] {o['name']}: {o['detail'][0][:1500] if o['detail'] else ''}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errs or und:
        for x in errs:
            print(x)
        for c, o in und[:int(os.environ.get('SHOW', '12'))]:
            print(f"[{c}] UNDECIDED {o['name']}: {o['detail'][0][:800] if o['detail'] else ''}")
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        e = env()
        build_driver(e)
        with cf.ThreadPoolExecutor(4) as ex:
            for _ in ex.map(lambda c: base(e, c), CONFIGS):
                pass
        sys.exit(0)
    try:
        sys.exit(main())
    except Exception as x:
        print(f"check error: {x}")
        sys.exit(2)
