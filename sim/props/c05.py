"""C05: a score never depends on what the process did before."""
import copy

import common
import core
import world
from core import Violation
from world import T

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 30000}
RULE = "a run is one simulated process history of 3-14 library calls (shared metric objects, arrays and files rewritten in place, failing, interrupted and fault-hit calls); non-trivial: at least two successful scores after the first call; counted once per distinct plan"
STATE_MEASURE = "ordered pairs (earlier call kind and outcome, later call kind, same object?, same slot?)"
REAL = common.LIB
STUB = ["Ctrl-C delivery (raised at a chosen library source line)", "failing allocations and I/O errors (seams)"]
ASSUMPTIONS = ["a fork of the process taken right after importing the library is a fresh process",
               "floating point agreement up to 1e-7 (2e-5 for torch based metrics)"]


def rewritten(rng, g):
    """The same call before and after the owner of the arrays has changed them in place."""
    op = g.score(None if rng.random() < 0.5 else rng.choice(["RMSE", "PSNR", "SSIM", "UQI"]), invalid=0)
    if rng.random() < 0.4:
        op["init"] = {**op["init"], "data_range": rng.choice([1, 255]), "normalize": True}
    if rng.random() < 0.5:
        op["obj"] = "rw"
    out = []
    for k in range(rng.randrange(2, 4)):
        op = copy.deepcopy(op)
        for side in ("a", "b"):
            if side in op:
                if k == 0:
                    if not op[side]["f"].startswith("file"):
                        op[side]["f"] = rng.choice(["image", "image", "arr", "fort", "tensor" if world.dt_of(op[side]["i"]) in ("u8", "f32") else "arr"])
                    op[side]["slot"] = "w" + side
                elif rng.random() < 0.6:
                    op[side]["i"]["s"] += 1000
                    if op[side]["i"]["k"] != "dist" and rng.random() < 0.3 and world.dt_of(op[side]["i"])[0] == "f":
                        op[side]["i"]["low"] = 0.2
        out.append(op)
        if rng.random() < 0.35:
            out.append({"op": "stats", "a": copy.deepcopy(op[rng.choice([s for s in ("a", "b") if s in op])])})
    return out


def gen(rng, tier, i):
    if rng.random() < 0.2:
        return {"steps": rewritten(rng, world.Gen(rng, wide=0.3, pool=2))}
    g = world.Gen(rng, wide=0.12, pool=2, forms=["arr", "arr", "fort", "strided", "neg", "ro", "image", "tensor"])
    n = rng.randrange(3, 15 if tier == "thorough" else 11)
    steps = []
    objs = {}
    focus = rng.choice([None, None] + world.Gen.METRICS)
    for _ in range(n):
        if rng.random() < 0.82:
            m = focus if focus and rng.random() < 0.7 else None
            op = g.score(m)
            key = op["m"]
            if rng.random() < 0.65:
                known = objs.setdefault(key, [])
                if known and rng.random() < 0.75:
                    name, init = rng.choice(known)
                    op["obj"], op["init"] = name, init
                else:
                    name = f"{key}{len(known)}"
                    if key in ("SNR", "CNR") and rng.random() < 0.2 and "signal_center" in op["kw"]:
                        op["init"] = {**op["init"], **{k: v for k, v in op["kw"].items() if k in ("signal_center", "background_center", "radius")}}
                    known.append((name, op["init"]))
                    op["obj"] = name
                if key in ("SNR", "CNR") and rng.random() < 0.3:
                    for k in ("signal_center", "background_center", "radius"):
                        op["kw"].pop(k, None)
        else:
            op = g.any([0, 10, 6, 4, 6, 4, 8, 12])
        for side in ("a", "b"):
            if side in op and "slot" not in op[side] and rng.random() < 0.5 and op[side]["f"] not in ("missing", "junk"):
                op[side]["slot"] = f"{side}{rng.randrange(2)}"
        if rng.random() < 0.2:
            op["fault"] = world.gen_fault(rng)
        steps.append(op)
    return {"steps": steps}


def history(d, steps):
    w = world.World(d)
    out = []
    for op in steps:
        f = op.get("fault")
        w.last_obj = None
        o = w.call_with(op, f)
        sv = world.plain(w.last_obj.score_val) if w.last_obj is not None else None
        out.append([o, sv, w.fired if f else 0])
    return out


MEM = ("signal_center", "background_center", "radius")


def needs(m):
    return ("signal_center", "radius") if m == "SNR" else MEM


def run(ctx, plan):
    d = ctx.fresh_dir()
    steps = []
    for op in plan["steps"]:
        op = dict(op)
        if op.get("fault"):
            op["fault"] = world.place(ctx, effective(op, None) if op["op"] == "score" else op, op["fault"])
        steps.append(op)
    res = ctx.child_ok(history, d, steps)
    memory = {}     # object -> set of remembered centre candidates (None = none)
    good = 0
    prev = []
    for idx, (op, (got, stored, fired)) in enumerate(zip(steps, res)):
        cands = [None]
        if op["op"] == "score" and op["m"] in ("SNR", "CNR") and "obj" in op:
            nd = needs(op["m"])
            if op["obj"] not in memory:
                init = op.get("init", {})
                memory[op["obj"]] = [{k: init[k] for k in nd} if all(k in init for k in nd) else None]
            if not all(k in op["kw"] for k in nd):
                cands = memory[op["obj"]]
        want = [world.fresh_outcome(ctx, effective(op, c)) for c in cands]
        rtol = world.rtol_of(op)
        ok = [c for c, (o, s) in zip(cands, want) if world.same(got, o, rtol)]
        ctx.count("calls")
        if fired:
            ctx.count("fault_" + op["fault"]["k"])
            if "exc" in got:
                ctx.count("fault_raised")
        if not ok and not (fired and "exc" in got):
            raise Violation("history-dependent", f"call {idx} ({op.get('m') or op['op']}) gave {world.describe(got)}, in a fresh process {world.describe(want[0][0])}; "
                            f"call: {world.describe({k: v for k, v in op.items()})}")
        if "ok" in got and op["op"] == "score":
            good += idx > 0
            ctx.count("scores")
            if "MaskError" not in str(got) and not world.same(stored, got["ok"], rtol) and not isinstance(got["ok"], list):
                raise Violation("stored-score", f"call {idx} returned {world.describe(got)} but stored {stored}")
        if op["op"] == "score" and op["m"] in ("SNR", "CNR") and "obj" in op:
            nd = needs(op["m"])
            new = {k: op["kw"][k] for k in nd} if all(k in op["kw"] for k in nd) else None
            if "ok" in got:
                if new is not None:
                    memory[op["obj"]] = [new]
                elif ok:
                    memory[op["obj"]] = ok
            elif fired and new is not None:
                memory[op["obj"]] = memory[op["obj"]] + [new]
        for p in prev[-3:]:
            ctx.states.append(core.hashlib.sha256(repr((p[0], p[1], op.get("m") or op["op"], p[2] is not None and p[2] == op.get("obj"),
                                                        p[3] is not None and p[3] == op.get("a", {}).get("slot"))).encode()).hexdigest()[:12])
        prev.append((op.get("m") or op["op"], "ok" if "ok" in got else got["exc"], op.get("obj"), op.get("a", {}).get("slot")))
    ctx.nontrivial = good >= 2


def effective(op, mem):
    """The call with remembered centres written out."""
    op = {k: v for k, v in op.items() if k not in ("fault",)}
    if mem:
        op["kw"] = {**op.get("kw", {}), **mem}
    if op.get("op") == "score" and op["m"] in ("SNR", "CNR"):
        op["init"] = {k: v for k, v in op.get("init", {}).items() if k not in MEM}
    return op


def shrink(plan):
    yield from common.shrink_steps(plan)
