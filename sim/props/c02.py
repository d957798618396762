"""C02: a batch that fails or is interrupted midway never mixes runs or hides it."""
import copy

import c01
import common
import core
import world
from core import Violation

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 20000}
RULE = "a run is one simulated process with 2-5 calculations on one batch and one multi-metric object, files vanishing or being rewritten between them and one fault inside most of them; non-trivial: a fault made a calculation raise and a later one succeeded; counted once per distinct plan"
STATE_MEASURE = "(object kind, fault kind, error number, rows stored when the call failed, results stored before it?)"
REAL = common.LIB + ["file system (scratch directory)"]
STUB = ["Ctrl-C (raised at a chosen library source line)", "failing file operations (libc seam)", "failing allocations (numpy and native seam)"]
ASSUMPTIONS = c01.ASSUMPTIONS


def gen(rng, tier, i):
    g = world.Gen(rng, pool=3)
    multi = rng.random() < 0.2
    if multi:
        op = g.multi()
        op["mobj"] = "M"
    else:
        op = g.batch(5, long=0.05)
        op["obj"] = "B"
    for j, m in enumerate(op["ms"]):
        m["obj"] = f"o{j}"
    steps = []
    for k in range(rng.randrange(2, 6)):
        s = copy.deepcopy(steps[-1] if steps else op)
        s.pop("fault", None)
        if multi:
            if k and rng.random() < 0.5:
                sp = s["a"]["i"]
                s["a"]["i"] = {**sp, "s": sp["s"] + 1000}
        else:
            for f in s["files"]:
                f.pop("gone", None)
            x = rng.random()
            if k and x < 0.45:
                f = rng.choice(s["files"])
                f["i"] = {**f["i"], "s": f["i"]["s"] + 1000}
            elif x < 0.6:
                rng.choice(s["files"])["gone"] = 1
            elif x < 0.7:
                rng.choice(s["files"])["cut"] = rng.randrange(1, 400)
            if rng.random() < 0.15:
                small = [min(world.shape_of(f["i"])[q] for f in s["files"]) for q in range(len(world.shape_of(s["files"][0]["i"])))]
                s["kw"]["roi"] = g.roi(small, 0.8)
        if rng.random() < (0.65 if k < 4 else 0.2):
            s["fault"] = world.gen_fault(rng, ("int", "int", "mem", "io", "io", "nat"))
        steps.append(s)
    last = copy.deepcopy(steps[-1])
    last.pop("fault", None)
    for f in last.get("files", []):
        f.pop("gone", None)
        f.pop("cut", None)
    steps.append(last)
    return {"steps": steps}


def history(d, steps):
    w = world.World(d)
    out = []
    returned = []          # (live object, what it held when returned)
    for op in steps:
        w.last_batch = w.last_returned = None
        o = w.call_with(op, op.get("fault"))
        b = w.last_batch
        stored = world.plain(b.results) if b is not None else None
        changed = [[n, world.plain(live)] for n, (live, was) in enumerate(returned) if not world.same(world.plain(live), was, 0)]
        out.append([o, stored, w.fired, changed])
        if w.last_returned is not None:
            returned.append((w.last_returned, world.plain(w.last_returned)))
    return out


def rows_of(ctx, op):
    """Correct rows (None where the pair cannot be scored)."""
    if op["op"] == "multi":
        o = world.fresh_outcome(ctx, {k: v for k, v in op.items() if k != "mobj"})[0]
        return o.get("ok"), "exc" in o
    rows = {}
    bad = False
    for k in range(len(op["pairs"])):
        r = c01.row_of(ctx, op, k)
        if "ok" in r:
            rows[str(k)] = r["ok"]
        else:
            bad = True
    return rows, bad


def run(ctx, plan):
    steps = []
    for op in plan["steps"]:
        op = dict(op)
        if op.get("fault"):
            op["fault"] = world.place(ctx, {k: v for k, v in op.items() if k not in ("fault", "obj", "mobj")}, op["fault"])
        steps.append(op)
    res = ctx.child_ok(history, ctx.fresh_dir(), steps)
    prev = {}
    known = False
    raised = 0
    for idx, (op, (got, stored, fired, changed)) in enumerate(zip(steps, res)):
        if changed:
            raise Violation("returned-changed", f"calculation {idx} changed the results returned by calculation {changed[0][0]} to {world.describe(changed[0][1])}")
        rows, bad = rows_of(ctx, op)
        rtol = world.rtol_of(op)
        ctx.count("calculations")
        if fired:
            ctx.count("fault_" + op["fault"]["k"])
        if "ok" in got:
            if bad:
                raise Violation("error-hidden", f"calculation {idx} returned {world.describe(got)} although an image cannot be read or scored")
            if not world.same(got["ok"], rows, rtol):
                raise Violation("wrong-rows", f"calculation {idx} (fault {op.get('fault')} fired {fired}) returned {world.describe(got['ok'])}, correct is {world.describe(rows)}")
            if not world.same(stored, got["ok"], 0):
                raise Violation("stored", f"calculation {idx} returned {world.describe(got['ok'])} but stored {world.describe(stored)}")
            if raised:
                ctx.nontrivial = True
            known = True
        else:
            if not bad and not fired:
                raise Violation("no-recovery", f"calculation {idx} raised {got['exc']} without any fault; correct is {world.describe(rows)}")
            raised += 1
            ctx.count("calculations_raising")
            if stored is None:        # the object could not be created
                stored = prev
            partial = op["op"] == "batch" and all(k in rows and world.same(v, rows[k], rtol) for k, v in stored.items())
            whole = op["op"] == "multi" and world.same(stored, rows, rtol)
            if not (partial or whole or world.same(stored, prev, 0)):
                raise Violation("mixed", f"calculation {idx} raised {got['exc']} (fault {op.get('fault')}) and left {world.describe(stored)}; rows of this calculation: {world.describe(rows)}; before: {world.describe(prev)}")
            f = op.get("fault") or {}
            ctx.states.append(core.hashlib.sha256(repr((op["op"], f.get("k"), f.get("err"), fired, bad, len(stored), known)).encode()).hexdigest()[:12])
        prev = stored


def shrink(plan):
    yield from common.shrink_steps(plan)
    op = plan["steps"][0]
    if op["op"] == "batch":
        for key in ("pairs", "ms"):
            for j in range(len(op[key])):
                if len(op[key]) > 1:
                    p = copy.deepcopy(plan)
                    for o in p["steps"]:
                        del o[key][j]
                        if key == "pairs" and o.get("rois"):
                            del o["rois"][j]
                    yield p
