"""C13: tool output does not depend on the order the directory is listed in."""
import os

import numpy as np

import cli
import common
import core
from core import Violation
from world import RAWB

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 60000}
RULE = "a run is one input directory tree (up to 24 entries, with unrelated files and folders, names that sort differently as text, number or by case) processed by one tool in 3-4 separate processes, each with its own seeded enumeration order of every directory; non-trivial: the directory listings really differed in order and outputs were compared; counted once per distinct plan"
STATE_MEASURE = "(tool, copying, number of matching entries, number of outputs, enumeration orders compared)"
REAL = ["src/scripts/combine_stack.py, write_to_csv.py, write_to_mat.py run as __main__ with real argv, and the library they import", "glob, os.scandir, shutil, scipy.io"]
STUB = ["order of directory entries (seeded permutation of what readdir returns)"]
ASSUMPTIONS = ["file-name order is the order of the names as text (what sorted() gives)", "the creation time in the first 128 bytes of a .mat file is not part of the output compared"]
setup = cli.setup
DT = {"u8": np.uint8, "u16": np.uint16, "f32": np.float32}


def gen(rng, tier, i):
    tool = rng.choice(["combine_stack", "combine_stack", "write_to_csv", "write_to_csv", "write_to_mat"])
    p = {"tool": tool, "seeds": [rng.getrandbits(40) for _ in range(rng.choice([2, 3]))]}
    if tool == "combine_stack":
        n = rng.choice([1, 2, 3, 5, 8, 11, 13])
        style = rng.choice(["n", "n0", "case", "mix", "twin"])
        names = []
        for k in range(n):
            names.append({"n": f"slice{k}", "n0": f"slice_{k:04d}", "case": ("Slice" if k % 2 else "slice") + str(n - k),
                          "twin": ("S", "s", "\u017f")[k % 3] + ("lice%d" % (k // 3)),
                          "mix": rng.choice(["a", "B", "_", "9", "z.", "-", "\u00e9"]) + f"{rng.randrange(1000)}_{k}"}[style])
        p.update(names=names, size=[rng.randrange(1, 6), rng.randrange(1, 6), rng.choice([1, 1, 1, 2, 3])],
                 dt=rng.choice(["u8", "u16", "f32"]), ext=rng.choice(["raw", "bin"]), other=rng.randrange(3))
    elif tool == "write_to_csv":
        nr, nm = rng.choice([1, 2, 3, 5, 12]), rng.choice([1, 2, 4, 9, 12])
        refs = sorted({rng.choice(["%03d", "a%02d", "B%02d", "A%02d", "b%02d"]) % rng.randrange(rng.choice([3, 14])) for _ in range(nr)})
        mods = sorted({(rng.choice(refs) if rng.random() < 0.85 else "zzz") + rng.choice(["_", "-", "x", "X", ""]) + str(rng.randrange(rng.choice([4, 40]))) for _ in range(nm)})
        rng.shuffle(refs)
        rng.shuffle(mods)
        p.update(refs=[r + ".png" for r in refs], mods=[m + "." + rng.choice(["png", "tif.png", "raw"]) for m in mods], copy=rng.random() < 0.6)
        if rng.random() < 0.3:       # two references for one name
            p["refs"].append(refs[0] + ".a.png")
        p["mods"] = [m for m in p["mods"] if m not in p["refs"]]
    else:
        p.update(dirs=[rng.choice("abXY") + str(k) for k in range(rng.randrange(1, 6))], name=rng.choice(["volume.mhd", "v_3x4x5_8bit.raw"]))
    return p


def shrink(p):
    for key in ("names", "refs", "mods", "dirs"):
        if len(p.get(key, [])) > 1:
            for k in range(len(p[key])):
                yield {**p, key: common.without(p[key], k)}
    if len(p["seeds"]) > 1:
        for k in range(len(p["seeds"])):
            yield {**p, "seeds": common.without(p["seeds"], k)}
    for key, val in (("copy", False), ("other", 0)):
        if p.get(key):
            yield {**p, key: val}
    if p.get("size") not in (None, [2, 2, 1]):
        yield {**p, "size": [2, 2, 1]}


def blob(p, name, n, dt="u8"):
    r = np.random.default_rng(core.derive("c13", name) % 2 ** 32)
    return r.integers(0, 250, n).astype(DT[dt]).tobytes()


def layout(p):
    """Input files, command line arguments, expected outputs or None."""
    if p["tool"] == "combine_stack":
        x, y, z = p["size"]
        bits = RAWB[p["dt"]]
        files = {f"in/{n}.{p['ext']}": blob(p, n, x * y * z, p["dt"]) for n in p["names"]}
        vol = b"".join(files[k] for k in sorted(files))
        for k in range(p["other"]):
            files[f"in/note{k}.txt"] = b"note"
            files[f"in/sub{k}/x.{p['ext']}"] = b"x" * 7
        args = ["in", "out", str(x), str(y), str(z), bits, p["ext"], "raw"]
        return files, args, {f"volume_{x}x{y}x{z * len(p['names'])}_{bits}.raw": vol}
    if p["tool"] == "write_to_csv":
        files = {f"ref/{n}": blob(p, "r" + n, 50) for n in p["refs"]}
        files.update({f"mod/{n}": blob(p, "m" + n, 60) for n in p["mods"]})
        files.setdefault("mod/zz_unrelated.txt", b"1")
        files.setdefault("ref/zz_unrelated.txt", b"2")
        return files, ["mod", "ref", "out"] + (["copy"] if p["copy"] else []), None
    files = {}
    for d in p["dirs"]:
        data = blob(p, d, 60)
        if p["name"].endswith(".mhd"):
            files[f"in/{d}/volume.mhd"] = b"ObjectType = Image\nNDims = 3\nDimSize = 3 4 5\nElementType = MET_UCHAR\nElementDataFile = volume.bin\n"
            files[f"in/{d}/volume.bin"] = data
        else:
            files[f"in/{d}/{p['name']}"] = data
    return files, ["in", p["name"]], None


def go(d, p, files, args, seed, order):
    names = list(files)
    core.rng_for("order", order).shuffle(names)      # entries are also created in another order
    cli.place(d, {n: files[n] for n in names})
    os.chdir(d)
    r = cli.start(p["tool"], args, d, shuffle=seed)
    t = cli.tree(d)
    changed = [n for n in files if t.get(n) != files[n]]
    if p["tool"] == "write_to_mat":
        out = {n: v[128:] for n, v in t.items() if n.endswith(".mat")}
    else:
        out = {n[4:]: v for n, v in t.items() if n.startswith("out/")}
    r["out"] = out
    r["changed"] = changed
    r["listing"] = os.listdir(os.path.join(d, "in" if p["tool"] != "write_to_csv" else "mod"))
    return r


def run(ctx, p):
    if p["tool"] == "write_to_csv" and not (p["refs"] and p["mods"]):
        return
    files, args, want = layout(p)
    res = [ctx.child_ok(go, ctx.fresh_dir(), p, files, args, s, k) for k, s in enumerate([None] + p["seeds"])]
    for k, r in enumerate(res):
        if not r["ok"]:
            raise Violation("failed", f"{p['tool']} raised {r.get('err')}: {r.get('text')} (enumeration order {k})")
        if r["changed"]:
            raise Violation("input-changed", f"{p['tool']} changed its inputs {r['changed'][:3]}")
        if r["out"] != res[0]["out"]:
            diff = [n for n in sorted(set(r["out"]) | set(res[0]["out"])) if r["out"].get(n) != res[0]["out"].get(n)]
            raise Violation("order-dependent", f"{p['tool']}: {diff[:4]} differ between two enumeration orders of the same directory")
        if want is not None and r["out"] != want:
            raise Violation("not-name-order", f"{p['tool']} wrote {sorted(r['out'])} with slices not in file-name order, expected {sorted(want)}")
        ctx.count("tool_runs")
    if p["tool"] == "write_to_csv":
        rows = res[0]["out"]["pairs.csv"].decode().split("\r\n" if b"\r\n" in res[0]["out"]["pairs.csv"] else "\n")
        got = sorted(x for x in rows[1:] if x)
        exp = sorted(f"{a},{b}" for a in p["refs"] for b in p["mods"] if a.split(".")[0] == b[:3])
        if got != exp:
            raise Violation("wrong-pairs", f"pair list {got[:5]} instead of {exp[:5]}")
        if p["copy"]:
            need = {n for e in exp for n in e.split(",")}
            have = {n[7:] for n in res[0]["out"] if n.startswith("images/")}
            if have != need:
                raise Violation("wrong-copies", f"copied {sorted(have)[:5]}, paired {sorted(need)[:5]}")
    ctx.count("shuffles", len(p["seeds"]))
    ctx.states.append((p["tool"], p.get("copy"), len(p.get("names", p.get("mods", p.get("dirs", [])))), len(res[0]["out"]), len(res)))
    ctx.nontrivial = True
