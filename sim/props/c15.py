"""C15: volume tools write the complete output volume or raise."""
import io
import os

import numpy as np

import cli
import common
import core
from core import Violation

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 120000}
RULE = "a run is one input (volume, projection set, image stack or folders of volumes) given to its tool: an undisturbed attempt compared with the model, then 1-3 attempts in their own processes with truncated or oversized input, failing, short or interrupted reads and writes, a kill, or a full disk at a seeded byte, then one more undisturbed attempt; non-trivial: at least one attempt was disturbed and outputs compared byte by byte; counted once per distinct plan"
STATE_MEASURE = "(tool, data type, non-cubic, fault kind, operation hit, outcome of the attempt, output present before)"
REAL = ["src/scripts/crop_image.py, reduce_projections.py, combine_stack.py, write_to_mat.py run as __main__ with real argv, and the library they import", "numpy file reading, scipy.io, the kernel's file system"]
STUB = ["failing, short and interrupted system calls, process kill, full disk (file size limit), enumeration order"]
ASSUMPTIONS = ["raw volumes are stored x fastest, then y, then z", "a crash is a killed process: what reached the kernel survives, what was buffered in the process is lost",
               "cropping by a factor keeps, along each axis of n voxels, the n // factor (rounded down to even) voxels around n // 2"]
setup = cli.setup
DT = {"8bit": np.uint8, "8ubit": np.uint8, "16bit": np.uint16, "16ubit": np.uint16, "32bit": np.uint32, "32ubit": np.uint32, "16fbit": np.float16, "32fbit": np.float32, "64fbit": np.float64}
MET = {"8bit": "MET_UCHAR", "16bit": "MET_USHORT", "32bit": "MET_UINT", "32fbit": "MET_FLOAT", "64fbit": "MET_DOUBLE"}


def gen(rng, tier, i):
    tool = rng.choice(["crop_image", "crop_image", "reduce_projections", "reduce_projections", "combine_stack", "combine_stack", "write_to_mat"])
    size = [rng.choice([1, 2, 3, 5, 8, 13, 20, rng.randrange(1, 17)]) for _ in range(3)]
    if rng.random() < 0.2:
        size[rng.randrange(3)] = 2 * size[rng.randrange(3)]
    p = {"tool": tool, "size": size, "bits": rng.choice(list(DT)), "s": rng.randrange(1000), "shuffle": rng.getrandbits(30) if rng.random() < 0.6 else None}
    if tool == "crop_image":
        p["factor"] = rng.choice([2, 2, 3, 4])
        p["size"] = [max(v, 2 * p["factor"] + rng.randrange(3)) for v in size]
    elif tool == "reduce_projections":
        p["factor"] = rng.choice([2, 3, 4, 7, 30])
    elif tool == "combine_stack":
        p["size"][2] = rng.choice([1, 1, 1, 2, 3])
        p["n"] = rng.choice([1, 2, 3, 6, 11])
        p["ext"] = rng.choice(["raw", "bin", "dat"])
        p["oext"] = rng.choice(["raw", "vol"])
    else:
        p["bits"] = rng.choice(list(MET))
        p["size"] = [max(2, v) for v in size]
        p["n"] = rng.choice([1, 2, 3])
        p["form"] = rng.choice(["mhd", "raw"])
    p["pre"] = rng.random() < 0.3        # an older output lies there
    p["faults"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        x, at = rng.random(), round(rng.random(), 4)
        if x < 0.2:
            f = {"k": "cut", "at": at, "which": rng.randrange(8), "by": rng.choice(["byte", "value", "at", "all"])}
        elif x < 0.28:
            f = {"k": "grow", "which": rng.randrange(8), "n": rng.choice([1, 2, 8, 100])}
        elif x < 0.55:
            f = {"k": "io", "at": at, "act": rng.choice([1, 1, 2, 6]), "arg": rng.choice([1, 5, 100]), "err": rng.choice([28, 5, 13, 4])}
            if f["act"] == 6 and f["err"] == 4:      # a call interrupted for ever is retried for ever
                f["err"] = 5
        elif x < 0.67:
            f = {"k": "io", "at": at, "act": rng.choice([3, 4, 5]), "arg": rng.choice([1, 50, 1000])}
        elif x < 0.92:
            f = {"k": "full", "at": at}
        else:
            f = {"k": "int", "at": at}
        if f["k"] == "io" and rng.random() < 0.5:
            f["at2"] = round(rng.random(), 4)
        p["faults"].append(f)
    return p


def shrink(p):
    for k in range(len(p["faults"])):
        if len(p["faults"]) > 1:
            yield {**p, "faults": common.without(p["faults"], k)}
    for k, v in enumerate(p["size"]):
        low = 2 * p["factor"] if p["tool"] == "crop_image" else 2
        if v > low:
            yield {**p, "size": p["size"][:k] + [low] + p["size"][k + 1:]}
    if p.get("n", 1) > 1:
        yield {**p, "n": p["n"] - 1}
    for key, val in (("pre", False), ("shuffle", None), ("bits", "8bit")):
        if p[key] != val:
            yield {**p, key: val}
    for k, f in enumerate(p["faults"]):
        if f.get("act") == 6:
            yield {**p, "faults": p["faults"][:k] + [{**f, "act": 1}] + p["faults"][k + 1:]}


def data(p, k, n):
    r = np.random.default_rng(p["s"] * 100 + k)
    a = r.integers(0, 250, n)
    if n > 1:
        a[0], a[1] = 0, 249       # never constant
    return a.astype(DT[p["bits"]])


def layout(p):
    """Input files, arguments, {output path: bytes or array}, names of the data files"""
    x, y, z = p["size"]
    n, bits = x * y * z, p["bits"]
    size = [str(v) for v in p["size"]]
    if p["tool"] == "crop_image":
        a = data(p, 0, n)
        v = a.reshape(z, y, x)
        sl = []
        for m in v.shape:
            h, c = (m // p["factor"]) // 2, m // 2
            sl.append(slice(c - h, c + h))
        w = np.ascontiguousarray(v[tuple(sl)])
        name = f"v_{x}x{y}x{z}_{bits}.raw"
        out = f"out/crop_v_{w.shape[2]}x{w.shape[1]}x{w.shape[0]}_{bits}.raw"
        return {"in/" + name: a.tobytes()}, ["in/" + name, "out", *size, bits, str(p["factor"])], {out: w.tobytes()}, ["in/" + name]
    if p["tool"] == "reduce_projections":
        a = data(p, 0, n)
        w = np.ascontiguousarray(a.reshape(z, -1)[::p["factor"]])
        return {"in/p.raw": a.tobytes()}, ["in/p.raw", "out/r.raw", *size, bits, str(p["factor"])], {"out/r.raw": w.tobytes()}, ["in/p.raw"]
    if p["tool"] == "combine_stack":
        files = {f"in/s{k:02d}.{p['ext']}": data(p, k, n).tobytes() for k in range(p["n"])}
        out = f"out/volume_{x}x{y}x{z * p['n']}_{bits}.{p['oext']}"
        return files, ["in", "out", *size, bits, p["ext"], p["oext"]], {out: b"".join(files[k] for k in sorted(files))}, sorted(files)
    files, want, names = {}, {}, []
    for k in range(p["n"]):
        a = data(p, k, n)
        if p["form"] == "mhd":
            files[f"in/d{k}/volume.mhd"] = f"ObjectType = Image\nNDims = 3\nDimSize = {x} {y} {z}\nElementType = {MET[bits]}\nElementDataFile = volume.bin\n".encode()
            names.append(f"in/d{k}/volume.bin")
        else:
            names.append(f"in/d{k}/v_{x}x{y}x{z}_{bits}.raw")
        files[names[-1]] = a.tobytes()
        v = a.reshape(z, y, x).transpose(2, 1, 0)      # loaded volumes are indexed x, y, z
        lo, hi = v.min(), v.max()
        want[f"in/d{k}/image.mat"] = ((v - lo) / (hi - lo)).astype(np.float32) if hi > lo else None
    args = ["in"] + ([] if p["form"] == "mhd" else [os.path.basename(names[0])])
    return files, args, want, names


def attempt(d, p, args, fault):
    os.chdir(d)
    return cli.start(p["tool"], args, d, fault=fault, shuffle=p["shuffle"])


def wrong(p, t, want, inputs):
    """What is wrong with the outputs in t (None: all as they must be)."""
    for n, v in want.items():
        got = t.get(n)
        if got is None:
            return f"{n} is missing (there: {[k for k in t if k not in inputs][:4]})"
        if n.endswith(".mat"):
            import scipy.io as sio
            try:
                m = sio.loadmat(io.BytesIO(got))["image"]
            except Exception as e:
                return f"{n} cannot be read: {type(e).__name__}"
            if v is not None and (m.shape != v.shape or not np.allclose(m, v, rtol=1e-5, atol=1e-6)):
                return f"{n} holds other values"
        elif got != v:
            return f"{n} has {len(got)} bytes, the volume {len(v)}" if len(got) != len(v) else f"{n} holds other voxels"
    extra = [n for n, v in t.items() if v is not None and n not in want and n not in inputs]
    if extra:
        return f"unexpected file {extra[0]}"
    return None


def run(ctx, p):
    files, args, want, names = layout(p)
    d = ctx.fresh_dir()

    def reset():
        import shutil
        for n in os.listdir(d):
            shutil.rmtree(os.path.join(d, n))
        cli.place(d, files)
        if p["pre"]:
            cli.place(d, {n: b"old" * 40 for n in want})
    reset()
    r = ctx.child_ok(attempt, d, p, args, None)
    if not r["ok"]:
        raise Violation("failed", f"{p['tool']} {p['size']} {p['bits']}: {r.get('err')} {r.get('text')}")
    t = cli.tree(d)
    err = wrong(p, t, want, files)
    if err:
        raise Violation("wrong-output", f"{p['tool']} size {p['size']} {p['bits']}: {err}")
    if {n: t[n] for n in files} != files:
        raise Violation("input-changed", p["tool"])
    clean, ops, lines, log = t, r["ops"], r["lines"], r["log"]
    big = max(len(t[n]) for n in want)
    disturbed = 0
    for f in p["faults"]:
        reset()
        q = dict(f)
        must = False
        what = None
        if f["k"] in ("cut", "grow"):
            n = names[f["which"] % len(names)]
            size = len(files[n])
            item = DT[p["bits"]]().itemsize
            if f["k"] == "cut":
                keep = {"byte": size - 1, "value": size - item, "at": int(f["at"] * size), "all": 0}[f["by"]]
                # a lone part of a value at the end of the file is not distinguishable from a full file
                must = keep // item != size // item
                os.truncate(os.path.join(d, n), max(0, keep))
            else:
                must = f["n"] >= item
                with open(os.path.join(d, n), "ab") as fh:
                    fh.write(b"\1" * f["n"])
            r = ctx.child(attempt, d, p, args, None)
        else:
            if f["k"] == "io":
                q["n"] = cli.position(f, log)
                what = log[q["n"]]
            elif f["k"] == "full":
                q["n"] = int(f["at"] * (big + 1))
            else:
                q["n"] = min(lines - 1, int(f["at"] * lines))
            r = ctx.child(attempt, d, p, args, q)
        if r["status"] == "exit" and r["code"] == 137:
            out = "killed"
            disturbed += 1
        elif r["status"] == "ok":
            v = r["value"]
            out = "ok" if v["ok"] else v["err"]
            if v["ok"] and must:
                raise Violation("wrong-size-accepted", f"{p['tool']} size {p['size']} {p['bits']} succeeded on an input of another size ({q})")
            if v["ok"]:
                t = cli.tree(d)
                err = wrong(p, t, want, files)
                if err and not (p["tool"] == "write_to_mat" and what == "dir"):
                    raise Violation("unreported", f"{p['tool']} size {p['size']} {p['bits']} reported success with fault {q}, but {err}")
            elif f["k"] == "io" and not v["fired"]:
                raise Violation("spurious-error", f"{p['tool']} failed without a fault: {v['err']} {v.get('text')}")
            if v["fired"] or f["k"] in ("full", "cut", "grow"):
                disturbed += 1
        elif r["status"] == "timeout":
            raise Violation("hang", f"{p['tool']} with {q} did not finish")
        else:
            raise Violation("process-died", f"{p['tool']} with {q}: {r}")
        ctx.count("fault_" + f["k"] + (f"_{['', 'err', 'short', 'kill', 'kill_after', 'torn', 'sticky'][f['act']]}" if f["k"] == "io" else ""))
        ctx.states.append((p["tool"], p["bits"], len(set(p["size"])) > 1, f["k"], f.get("act"), what, out, p["pre"]))
        # whatever it left, the next undisturbed attempt is right
        cli.place(d, files)
        last = ctx.child_ok(attempt, d, p, args, None)
        if not last["ok"]:
            raise Violation("no-recovery", f"{p['tool']} after {q}: rerun raised {last['err']} {last.get('text')}")
        err = wrong(p, cli.tree(d), want, files)
        if err:
            raise Violation("wrong-output", f"{p['tool']} rerun after {q}: {err}")
    if disturbed:
        ctx.nontrivial = True
