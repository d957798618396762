"""C10: long histories, even failing ones, leak no files, figures or image memory."""
import copy
import gc
import os
import shutil

import common
import core
import env
import world
from core import Violation

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 15000}
RULE = "a run is one sequence of 1-3 library calls (some fault-hit or interrupted at a seeded position) repeated 18-60 times in one process; resources are measured after warm-up and after two further windows; non-trivial: at least one call loaded, computed or wrote something; counted once per distinct plan"
STATE_MEASURE = "(call kind, metric or function, fault kind and position decile, outcome, object kept or new, inputs same, new or of new size each time)"
REAL = common.LIB
STUB = ["Ctrl-C delivery", "failing allocations and I/O errors (seams)", "repetition (the caller's loop)"]
ASSUMPTIONS = ["a resource that grows in each of two equally long windows of identical repetitions, and again over windows of 90 repetitions, grows with the number of calls",
               "exceptions raised inside ImageArray's __array_finalize__/__array_ufunc__ hooks are not judged (numpy itself loses references to the array when these raise, e.g. in reductions)",
               "pictures are exported without display; a figure shown on a display belongs to the display"]


def gen(rng, tier, i):
    g = world.Gen(rng, pool=3, forms=["arr", "arr", "fort", "strided", "image", "tensor"])
    steps = []
    for k in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.12:
            op = g.picture("export_image")
            op["kw"]["show_image"] = False
            op["kw"]["dpi"] = 20
        elif x < 0.2:
            op = g.native()
        elif x < 0.3:
            op = g.load()
            ex = world.file_exts(op["a"]["i"])
            if ex:
                op["a"]["f"] = "file:" + rng.choice(ex)
        else:
            op = g.any([44, 6, 3, 2, 3, 0, 5, 8, 6, 7, 0, 2])
        if op["op"] == "export" and op.get("kw", {}).get("image"):
            op["kw"]["dpi"] = 20
        if op["op"] == "score" and rng.random() < 0.5:
            op["obj"] = f"o{k}"
        if op["op"] == "multi" and rng.random() < 0.4:
            op["mobj"] = f"mm{k}"
        if rng.random() < 0.5:
            op["fault"] = world.gen_fault(rng, ("io", "io", "mem", "int", "nat") if op["op"] in ("load", "picture", "export", "batch", "describe") else ("mem", "int", "nat", "io"))
            op["fault"].pop("sticky", None)
        steps.append(op)
    return {"steps": steps, "vary": rng.choice([0, 0, 1, 2]), "reps": rng.choice([6, 6, 10, 20 if tier == "thorough" else 8])}


def varied(op, it, size):
    """The same call on other images; size: (rows, columns) larger than the first ones."""
    def walk(v):
        if isinstance(v, dict):
            if "k" in v and "s" in v and ("shape" in v or "of" in v):
                v = {k: (x + 1000 * (it + 1) if k == "s" else walk(x)) for k, x in v.items()}
                if "shape" in v:
                    v["shape"] = [n + m for n, m in zip(v["shape"], list(size) + [0, 0])]
                return v
            return {k: walk(x) for k, x in v.items()}
        if isinstance(v, list):
            return [walk(x) for x in v]
        return v
    op = walk(op)
    b = op.get("of", op)
    if b["op"] == "batch":
        b["dir"] = f"batch{it}"
    return op


def measure(w):
    import matplotlib.pyplot as plt
    import torch
    for a in ("last_obj", "last_batch", "last_returned", "last_loaded"):
        setattr(w, a, None)
    gc.collect()
    st = env.simalloc.stats()
    objs = gc.get_objects()
    ten = sum(1 for o in objs if type(o) is torch.Tensor)
    del objs
    return {"open files": len(os.listdir("/proc/self/fd")), "open figures": len(plt.get_fignums()),
            "live arrays": st["live_blocks"], "live array bytes": st["live_bytes"], "native work memory": env.shim.lib.simm_live(), "live tensors": ten}


def history(d, steps, vary, reps):
    env.simalloc.install()
    env.simalloc.configure(0, 1, -1, 0, 1 << 40)
    w = world.World(d, share=not vary)
    marks, outs, site = [], [], None
    fired = [0] * len(steps)
    for it in range(3 * reps):
        outs = []
        for k, op in enumerate(steps):
            f = op.get("fault")
            # every repetition has its own size, but what is kept of the last call must be comparable
            size = (0, 0) if vary != 2 or (it + 1) % reps == 0 else (1 + it % 16, it // 16)
            o = varied({x: v for x, v in op.items() if x != "fault"}, it, size) if vary else op
            got = w.call_with(o, f)
            outs.append("ok" if "ok" in got else got["exc"])
            fired[k] += bool(w.fired)
            if "exc" in got and ("in __array_ufunc__" in w.last_tb or "in __array_finalize__" in w.last_tb):
                site = True
            got = None
        if vary:
            w.keep.clear()
            w.files.clear()
            for n in os.listdir(d):
                p = os.path.join(d, n)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        if (it + 1) % reps == 0:
            marks.append(measure(w))
    return [marks, outs, fired, site]


def run(ctx, plan):
    d = ctx.fresh_dir()
    steps = []
    for op in plan["steps"]:
        op = dict(op)
        if op.get("fault"):
            op["fault"] = world.place(ctx, op, op["fault"])
        steps.append(op)
    marks, outs, fired, site = ctx.child_ok(history, d, steps, plan["vary"], plan["reps"])
    ctx.nontrivial = True
    names = []
    for op, o, n in zip(steps, outs, fired):
        f = op.get("fault")
        what = op.get("m") or op.get("fn") or op["op"]
        names.append(what + (f" with {f}" if f else ""))
        ctx.count("calls", 3 * plan["reps"])
        ctx.count("op_" + op["op"])
        if n:
            ctx.count("fault_" + f["k"], n)
        ctx.states.append(core.hashlib.sha256(repr((op["op"], what, f and (f["k"], int(f["at"] * 10)), o, bool(op.get("obj")), plan["vary"])).encode()).hexdigest()[:12])
    if site:
        ctx.count("arrays_not_judged")
    a, b, c = marks

    def grows(k):
        return not (site and k.startswith("live")) and b[k] > a[k] and c[k] > b[k]
    if any(grows(k) for k in a) and plan["reps"] < 90:
        # a bounded cache that is still filling up is no leak
        ctx.count("long_confirmations")
        marks, outs, fired, site = ctx.child_ok(history, ctx.fresh_dir(), steps, plan["vary"], 90, timeout=400)
        plan = {**plan, "reps": 90}
        a, b, c = marks
    for k in a:
        if grows(k):
            raise Violation("leak", f"{k} grow with the number of repetitions: {a[k]}, {b[k]}, {c[k]} after {plan['reps']}, {2 * plan['reps']}, {3 * plan['reps']} repetitions of {names} ({outs})")


def shrink(plan):
    for p in common.shrink_steps(plan):
        if all(op.get("fn") != "export_image" or op["kw"].get("show_image") is False for op in p["steps"]):
            yield p
    if plan["reps"] > 6:
        yield common.with_key(plan, "reps", 6)
    for v in range(plan["vary"]):
        yield common.with_key(plan, "vary", v)
