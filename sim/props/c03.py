"""C03: loading gives exactly the stored image or raises, whatever storage does."""
import copy
import os

import numpy as np

import common
import core
import env
import world
from core import Violation

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = "a run is one simulated process loading 1-5 image files, several times each, with storage faults (failing or short file operations, truncation, extension, removal, replacement while loading), failing allocations and interrupts; non-trivial: a fault or damage took effect during a load; counted once per distinct plan"
STATE_MEASURE = "(format, data type, loader, damage or fault kind, error number, position decile, outcome)"
REAL = common.LIB + ["file system (scratch directory)"]
STUB = ["failing and short file operations (libc seam)", "other processes touching the file (performed between library lines)"]
ASSUMPTIONS = ["the bytes written by the harness' own encoders (numpy order F for raw/mhd, nibabel, Pillow, tifffile) are the stored image"]

DTS = ["u8", "u8", "u16", "u32", "f16", "f32", "f64"]
SH3 = [(5, 6, 7), (7, 4, 5), (3, 8, 2), (6, 6, 6), (1, 5, 4), (9, 10, 11), (4, 13, 5)]
SH2 = [(12, 12), (9, 14), (17, 5)]


def gen(rng, tier, i):
    steps = []
    for k in range(rng.randrange(1, 4)):
        x = rng.random()
        shape = rng.choice(SH3) if x < 0.65 else rng.choice(SH2) if x < 0.9 else (8, 9, 3)
        dt = rng.choice(DTS) if len(shape) == 3 and shape[-1] != 3 else rng.choice(["u8", "u8", "u16", "f32"]) if len(shape) == 2 else "u8"
        sp = {"k": rng.choice(["noise", "ramp", "smooth"]), "s": rng.randrange(1000), "shape": list(shape), "dt": dt}
        ext = rng.choice(world.file_exts(sp))
        for rep in range(rng.randrange(1, 4)):
            st = {"i": sp, "ext": ext, "slot": k, "fn": 0}
            if rng.random() < 0.25:
                st["fn"] = {"raw": "load_raw", "mhd": "load_mhd", "nii": "load_nifti", "nii.gz": "load_nifti"}.get(ext, 0)
            if rng.random() < 0.2:
                st["pl"] = 1
            if ext == "mhd":
                st["hdr"] = rng.randrange(7)
            if ext == "raw":
                st["old"] = rng.random() < 0.3
            y = rng.random()
            if y < 0.35:
                st["dmg"] = {"k": rng.choice(["cut", "cut", "cut", "grow", "empty", "gone"]), "at": round(rng.random(), 4),
                             "n": rng.choice([1, 2, 3, 7, 8, 64, 1000]), "head": rng.random() < 0.4}
            elif y < 0.9:
                f = world.gen_fault(rng, ("io", "io", "io", "io", "mem", "int", "race"))
                if f["k"] == "io":
                    f["err"] = rng.choice([5, 5, 13, 2, 24, 12, 4, 21])
                    if rng.random() < 0.35:
                        f["act"], f["arg"] = env.Shim.SHORT, rng.choice([1, 2, 3, 17, 100, 333, 352])
                if f["k"] == "race":
                    f["do"] = rng.choice(["cut", "swap", "swap", "gone", "rewrite"])
                    f["c"] = round(rng.random(), 4)
                st["fault"] = f
            steps.append(st)
            if rng.random() < 0.25:
                sp = {**sp, "s": sp["s"] + 1000}
    return {"steps": steps}


def blobs_of(st, spec=None):
    spec = spec or st["i"]
    b = world.file_blobs(f"vol{st['slot']}", st["ext"], spec)
    if st["ext"] == "mhd":
        names = list(b)
        lines = b[names[0]].decode().strip().split("\n")
        h = st.get("hdr", 0)
        if h == 1:
            lines = lines[::-1]
        elif h == 2:
            lines = ["ElementSpacing = 1 1 1", "CompressedData = False"] + lines
        elif h == 3:
            lines = lines[2:] + lines[:2]
        elif h == 4:
            lines = lines[:2] + ["BinaryDataByteOrderMSB = False"] + lines[2:]
        elif h >= 5:                     # stored with the most significant byte first
            lines = lines[:2] + ["BinaryData = True", ("BinaryDataByteOrderMSB" if h == 5 else "ElementByteOrderMSB") + " = True"] + lines[2:]
            dt = np.dtype(world.DT[world.dt_of(spec)])
            b[names[1]] = np.frombuffer(b[names[1]], dt).byteswap().tobytes()
        b[names[0]] = ("\n".join(lines) + "\n").encode()
    if st.get("old"):
        b = {n.replace("8ubit", "8bit").replace("16ubit", "16bit").replace("32ubit", "32bit"): v for n, v in b.items()}
    return b


def damage(d, names, blobs, dm):
    """Damage the stored file; returns what was done."""
    name = names[0] if (dm["head"] or len(names) == 1) else names[-1]
    p = os.path.join(d, name)
    n = len(blobs[name])
    if dm["k"] == "cut":
        os.truncate(p, min(n - 1, int(dm["at"] * n)) if dm["n"] > 3 else max(0, n - dm["n"]))
    elif dm["k"] == "grow":
        with open(p, "ab") as f:
            f.write(b"\x07" * dm["n"])
    elif dm["k"] == "empty":
        os.truncate(p, 0)
    elif dm["k"] == "gone":
        os.unlink(p)


def history(d, steps):
    w = world.World(d)
    out = []
    held = []
    for st in steps:
        blobs = blobs_of(st)
        names = list(blobs)
        path = world.put_files(d, blobs)
        op = {"op": "load", "a": {"i": None, "f": "path", "path": path, "pl": st.get("pl")}}
        if st["fn"]:
            op["fn"] = st["fn"]
        if st.get("dmg"):
            damage(d, names, blobs, st["dmg"])
        f = st.get("fault")
        if f and f["k"] == "race":
            def action():
                tgt = os.path.join(d, names[-1])
                if f["do"] == "cut":
                    os.truncate(tgt, int(f["c"] * len(blobs[names[-1]])))
                elif f["do"] == "gone":
                    os.unlink(tgt)
                elif f["do"] == "rewrite":      # afterwards complete again, in place
                    pass
                else:
                    new = blobs_of(st, {**st["i"], "s": st["i"]["s"] + 5000})
                    tmp = os.path.join(d, "incoming")
                    with open(tmp, "wb") as g:
                        g.write(new[names[-1]])
                    os.replace(tmp, tgt)
            w.race_action = action
        w.last_loaded = None
        got = w.call_with(op, f)
        fired = w.fired
        if w.last_loaded is not None and "ok" in got:
            held.append((len(out), w.last_loaded, got["ok"]))
        # the owner rewrites the file in place; images loaded before must not follow
        for n in names:
            if os.path.exists(os.path.join(d, n)):
                with open(os.path.join(d, n), "r+b") as g:
                    g.write(b"\x55" * len(blobs[n]))
                    g.truncate()
        late = [k for k, o, v in held if not world.same(world.plain(o), v, 0)]
        world.put_files(d, blobs)
        w.last_loaded = None
        again = w.call(op)
        if w.last_loaded is not None and "ok" in again:
            held.append((len(out), w.last_loaded, again["ok"]))
        out.append([got, fired, again, late])
    return out


def expected(st, spec=None):
    return np.ascontiguousarray(world.loaded_as(st["ext"], spec or st["i"]))


def run(ctx, plan):
    steps = []
    for st in plan["steps"]:
        st = dict(st)
        if st.get("fault"):
            op = {"op": "load", "a": {"i": st["i"], "f": "file:" + st["ext"], "pl": st.get("pl")}}
            if st["fn"]:
                op["fn"] = st["fn"]
            st["fault"] = world.place(ctx, op, st["fault"])
        steps.append(st)
    d = ctx.fresh_dir()
    res = ctx.child_ok(history, d, steps)
    for idx, (st, (got, fired, again, late)) in enumerate(zip(steps, res)):
        want = expected(st)
        f, dm = st.get("fault"), st.get("dmg")
        ctx.count("loads")
        what = f"load {idx} of {st['ext']} {st['i']['dt']} {st['i']['shape']}"
        kind = dm["k"] if dm else (f["k"] + "_" + str(f.get("do") or f.get("act") or "") if f and fired else "none")
        if kind != "none":
            ctx.count("damage_" + kind)
            ctx.nontrivial = True
        pos = int((dm or f or {}).get("at", 0) * 10)
        ctx.states.append(core.hashlib.sha256(repr((st["ext"], st["i"]["dt"], st["fn"], kind, (f or {}).get("err"), pos, "ok" in got)).encode()).hexdigest()[:12])
        if "ok" in got:
            ok = world.same(got["ok"], want, 0)
            if not ok and f and fired and f["k"] == "race" and f.get("do") == "swap":
                ok = world.same(got["ok"], expected(st, {**st["i"], "s": st["i"]["s"] + 5000}), 0)
            if not ok:
                raise Violation("wrong-image", f"{what} ({kind} {dm or f}) returned an image that differs from the stored one: {world.describe(got['ok'])}")
            if kind == "grow" and st["ext"] in ("raw", "mhd") and dm["n"] >= 8 and not (st["ext"] == "mhd" and dm["head"]):
                raise Violation("wrong-size", f"{what} returned an image although the data file holds more voxels than declared ({dm['n']} bytes too many)")
            if kind in ("gone", "empty"):
                raise Violation("wrong-image", f"{what} returned an image although the file was {kind}")
        else:
            ctx.count("loads_raising")
            if kind == "none":
                raise Violation("not-loaded", f"{what} raised {got['exc']} without any fault")
        if "ok" not in again or not world.same(again["ok"], want, 0):
            raise Violation("no-recovery", f"{what}: after {kind} the undisturbed file loads as {world.describe(again)}")
        if late:
            raise Violation("image-changed", f"{what}: an image loaded earlier changed when its file was rewritten")


def shrink(plan):
    for c in common.drop(plan["steps"]):
        yield common.with_key(plan, "steps", c)
    for i, st in enumerate(plan["steps"]):
        for k in ("fault", "dmg", "pl", "hdr", "old"):
            if st.get(k):
                p = copy.deepcopy(plan)
                p["steps"][i].pop(k)
                yield p
