"""C14: the pair-list and copy tool recovers completely from a crash or error on rerun."""
import os

import numpy as np

import cli
import common
import core
from core import Violation

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 100000}
RULE = "a run is one set of image folders processed by the pair-list tool: 1-3 attempts each killed (before, after or inside a system call), failing or interrupted at a seeded point or on a full disk, each its own process on the surviving files, then one undisturbed attempt; non-trivial: at least one attempt was disturbed and the last one compared byte by byte; counted once per distinct plan"
STATE_MEASURE = "(copying, fault kind, operation hit, position decile, outcome of the attempt, files present at its start)"
REAL = ["src/scripts/write_to_csv.py run as __main__ with real argv", "glob, shutil.copyfile, csv, the kernel's file system"]
STUB = ["process kill, failing system calls, full disk (file size limit), Ctrl-C delivery, enumeration order"]
ASSUMPTIONS = ["a crash is a killed process: what reached the kernel survives, what was buffered in the process is lost"]
setup = cli.setup
TOOL = "write_to_csv"


def gen(rng, tier, i):
    nr, nm = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5])
    refs = [f"{k:03d}" for k in rng.sample(range(20), nr)]
    files = {f"ref/{r}.png": [rng.randrange(10 ** 6), size(rng)] for r in refs}
    for k in range(nm):
        files[f"mod/{rng.choice(refs)}_{k}.png"] = [rng.randrange(10 ** 6), size(rng)]
    if rng.random() < 0.3:
        files["mod/zzz_other.png"] = [1, 100]
    p = {"files": files, "copy": rng.random() < 0.85, "shuffle": rng.getrandbits(30) if rng.random() < 0.6 else None, "faults": []}
    if rng.random() < 0.15:
        p["outdir"] = True           # the output folder is there already
        if rng.random() < 0.6:
            p["stale"] = rng.choice([1, 5, 40])    # with an older, perhaps longer pair list
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.random()
        at = round(rng.random(), 4)
        if x < 0.5:
            f = {"k": "io", "at": at, "act": rng.choice([3, 4, 5]), "arg": rng.choice([1, 7, 1000, 5000])}
        elif x < 0.75:
            f = {"k": "io", "at": at, "act": rng.choice([1, 1, 2, 6]), "arg": rng.choice([1, 100]), "err": rng.choice([28, 5, 13, 30, 24])}
        elif x < 0.9:
            f = {"k": "full", "at": at}
        else:
            f = {"k": "int", "at": at}
        if f["k"] == "io" and rng.random() < 0.5:
            f["at2"] = round(rng.random(), 4)
        p["faults"].append(f)
    return p


def size(rng):
    return rng.choice([0, 1, 100, 3000, 9000, 20000, 70000])


def shrink(p):
    for k in range(len(p["faults"])):
        if len(p["faults"]) > 1:
            yield {**p, "faults": common.without(p["faults"], k)}
    for n in p["files"]:
        q = {a: b for a, b in p["files"].items() if a != n}
        if any(a.startswith("ref/") for a in q):
            yield {**p, "files": q}
        if p["files"][n][1] > 100:
            yield {**p, "files": {**p["files"], n: [p["files"][n][0], 100]}}
    if p["shuffle"] is not None:
        yield {**p, "shuffle": None}
    if p.get("stale"):
        yield {**p, "stale": 0}
    elif p.get("outdir"):
        yield {**p, "outdir": False}


def blobs(p):
    return {n: np.random.default_rng(s).bytes(z) for n, (s, z) in p["files"].items()}


def argv(p):
    return ["mod", "ref", "out"] + (["copy"] if p["copy"] else [])


def attempt(d, p, fault):
    os.chdir(d)
    return cli.start(TOOL, argv(p), d, fault=fault, shuffle=p["shuffle"])


def older(d, p):
    if p.get("outdir"):
        os.makedirs(os.path.join(d, "out"))
        if p.get("stale"):
            with open(os.path.join(d, "out/pairs.csv"), "w") as f:
                f.write("reference_image,modified_image\r\n" + "old.png,old_1.png\r\n" * p["stale"])


def placed(d, p):
    cli.place(d, blobs(p))
    older(d, p)
    r = attempt(d, p, None)
    r["out"] = {n: v for n, v in cli.tree(d).items() if n.split("/")[0] == "out"}
    return r


def check_model(p, out):
    """What an undisturbed run must leave."""
    src = blobs(p)
    refs = [n[4:] for n in src if n.startswith("ref/")]
    mods = [n[4:] for n in src if n.startswith("mod/")]
    pairs = sorted(f"{a},{b}" for a in refs for b in mods if a.split(".")[0] == b[:3])
    rows = out.get("out/pairs.csv")
    if rows is None:
        return "no pair list"
    rows = rows.decode().splitlines()
    if rows[:1] != ["reference_image,modified_image"] or sorted(rows[1:]) != pairs:
        return f"pair list {rows} instead of {pairs}"
    if p["copy"]:
        need = {}
        for q in pairs:
            a, b = q.split(",")
            need[a], need[b] = src["ref/" + a], src["mod/" + b]
        have = {n[11:]: v for n, v in out.items() if n.startswith("out/images/")}
        for n in sorted(set(need) | set(have)):
            if need.get(n) != have.get(n):
                return f"copy {n}: {'missing' if n not in have else 'unexpected' if n not in need else f'{len(have[n])} bytes, not the {len(need[n])} of the original'}"
    return None


def run(ctx, p):
    clean = ctx.child_ok(placed, ctx.fresh_dir(), p)
    if not clean["ok"]:
        raise Violation("failed", f"undisturbed run: {clean.get('err')}: {clean.get('text')}")
    err = check_model(p, clean["out"])
    if err:
        raise Violation("wrong-output", f"undisturbed run: {err}")
    ops, lines = clean["ops"], clean["lines"]
    big = max(len(v) for v in clean["out"].values() if v is not None)
    d = ctx.fresh_dir()
    src = blobs(p)
    cli.place(d, src)
    older(d, p)

    def outputs():
        t = cli.tree(d)
        if {n: v for n, v in t.items() if n in src} != src:
            raise Violation("input-changed", "the tool changed its input files")
        return {n: v for n, v in t.items() if n.split("/")[0] == "out"}
    disturbed = 0
    for f in p["faults"]:
        q = dict(f)
        if f["k"] == "io":
            q["n"] = cli.position(f, clean["log"])
        elif f["k"] == "full":
            q["n"] = int(f["at"] * (big + 1))
        else:
            q["n"] = min(lines - 1, int(f["at"] * lines))
        before = len(outputs())
        r = ctx.child(attempt, d, p, q)
        if r["status"] == "exit" and r["code"] == 137:
            out = "killed"
        elif r["status"] == "ok":
            v = r["value"]
            out = "ok" if v["ok"] else v["err"]
            if v["ok"]:
                now = outputs()
                if now != clean["out"]:
                    diff = [n for n in sorted(set(now) | set(clean["out"])) if now.get(n, 0) != clean["out"].get(n, 0)]
                    raise Violation("success-but-incomplete", f"attempt with {q} reported success, but {diff[:4]} differ from an undisturbed run")
            elif f["k"] == "io" and not v["fired"]:
                raise Violation("spurious-error", f"attempt failed without a fault: {v['err']} {v.get('text')}")
            if v["fired"] or f["k"] == "full":
                disturbed += 1
        elif r["status"] == "timeout":
            raise Violation("hang", f"attempt with {q} did not finish")
        else:
            raise Violation("process-died", f"attempt with {q}: {r}")
        if out == "killed":
            disturbed += 1
        what = clean["log"][q["n"]] if f["k"] == "io" and q["n"] < len(clean["log"]) else None
        ctx.count(f"fault_{f['k']}" + (f"_{['', 'err', 'short', 'kill', 'kill_after', 'torn', 'sticky'][f['act']]}" if f["k"] == "io" else ""))
        ctx.states.append((p["copy"], f["k"], f.get("act"), what, int(f["at"] * 10), out, min(before, 4)))
    last = ctx.child_ok(attempt, d, p, None)
    if not last["ok"]:
        raise Violation("no-recovery", f"after {p['faults']} the rerun raised {last['err']}: {last.get('text')}")
    now = outputs()
    if now != clean["out"]:
        diff = [n for n in sorted(set(now) | set(clean["out"])) if now.get(n, 0) != clean["out"].get(n, 0)]
        raise Violation("not-recovered", f"after {p['faults']} the rerun left {diff[:4]} different from an undisturbed run")
    if disturbed:
        ctx.nontrivial = True
