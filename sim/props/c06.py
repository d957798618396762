"""C06: a failed score call leaves the metric object as it was."""
import common
import core
import world
from core import Violation

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = "a run is one metric object going through 2-7 score calls, many of them invalid, on unreadable files, fault-hit or interrupted; non-trivial: a call failed and a later one succeeded or a score was stored before the failure; counted once per distinct plan"
STATE_MEASURE = "(metric, how the call failed, position decile of the fault, score stored before?, parameters remembered before?)"
REAL = common.LIB
STUB = ["Ctrl-C delivery (raised at a chosen library source line)", "failing allocations and I/O errors (seams)"]
ASSUMPTIONS = ["observable state of a metric object: score_val and parameters"]
MEM = ("signal_center", "background_center", "radius")


def gen(rng, tier, i):
    g = world.Gen(rng, wide=0.12, pool=2)
    m = rng.choices(g.METRICS, [4, 4, 6, 5, 6, 6, 5, 5, 4, 4, 14, 14])[0]
    steps = []
    init = None
    for _ in range(rng.randrange(2, 8)):
        op = g.score(m, invalid=0.35)
        if init is None:
            init = op["init"]
            if m in ("SNR", "CNR") and rng.random() < 0.3 and "signal_center" in op["kw"]:
                init = {**init, **{k: v for k, v in op["kw"].items() if k in MEM}}
        op["init"], op["obj"] = init, "o"
        if m in ("SNR", "CNR") and rng.random() < 0.35:
            for k in MEM:
                op["kw"].pop(k, None)
        if rng.random() < 0.4:
            op["fault"] = world.gen_fault(rng, ("int", "int", "mem", "mem", "io", "nat"))
        steps.append(op)
    return {"steps": steps}


def state(w):
    o = w.objs.get("o")
    if o is None:
        return None
    return [world.plain(o.score_val), world.plain(o.parameters)]


def history(d, steps):
    w = world.World(d)
    out = []
    # create the object first, as callers do
    o = world.World.obj
    try:
        o(w, steps[0])
    except Exception as e:
        return [["create", type(e).__name__]]
    for op in steps:
        before = state(w)
        got = w.call_with(op, op.get("fault"))
        out.append([got, before, state(w), w.fired if op.get("fault") else 0])
    return out


def run(ctx, plan):
    d = ctx.fresh_dir()
    steps = []
    for op in plan["steps"]:
        op = dict(op)
        if op.get("fault"):
            op["fault"] = world.place(ctx, op, op["fault"])
        steps.append(op)
    res = ctx.child_ok(history, d, steps)
    if res and res[0][0] == "create":
        return
    clean = []                 # the history without failed calls
    certain = True
    failed = 0
    rtol = world.rtol_of(steps[0])
    checks = []
    for idx, (op, (got, before, after, fired)) in enumerate(zip(steps, res)):
        f = op.get("fault")
        ctx.count("calls")
        if fired:
            ctx.count("fault_" + f["k"])
        plain_op = {k: v for k, v in op.items() if k != "fault"}
        if "exc" in got:
            failed += 1
            ctx.count("calls_raising")
            how = f["k"] if fired else got["exc"]
            ctx.states.append(core.hashlib.sha256(repr((op["m"], how, int((f or {}).get("at", 0) * 10) if fired else -1, before[0] is not None, "radius" in before[1])).encode()).hexdigest()[:12])
            if before[0] is not None:
                ctx.nontrivial = True
            if fired and f["k"] == "int" and got["exc"] == "KeyboardInterrupt":
                new = None
                if not world.same(after[0], before[0], 0) or not world.same(after[1], before[1], 0):
                    if not certain:
                        continue
                    new = ctx.child_ok(history, ctx.fresh_dir(), clean + [plain_op])[-1][2]
                    certain = False
                    if not (world.same(after[0], before[0], 0) or world.same(after[0], new[0], rtol)):
                        raise Violation("interrupted-score", f"interrupted call {idx} ({op['m']}) left score_val {world.describe(after[0])}; before {world.describe(before[0])}, new {world.describe(new[0])}")
                    keys = set(after[1]) | set(before[1]) | set(new[1])
                    for k in keys:
                        v = after[1].get(k, "absent")
                        if not (world.same(v, before[1].get(k, "absent"), 0) or world.same(v, new[1].get(k, "absent"), rtol)):
                            raise Violation("interrupted-parameters", f"interrupted call {idx} ({op['m']}) left {k}={v}; before {before[1].get(k)}, new {new[1].get(k)}")
            else:
                if not world.same(after[0], before[0], 0):
                    raise Violation("score-changed", f"call {idx} ({op['m']}) raised {got['exc']} and changed score_val from {world.describe(before[0])} to {world.describe(after[0])}")
                if not world.same(after[1], before[1], 0):
                    raise Violation("parameters-changed", f"call {idx} ({op['m']}) raised {got['exc']} and changed the parameters from {world.describe(before[1])} to {world.describe(after[1])}")
        else:
            ctx.count("scores")
            if not isinstance(got["ok"], list) and not world.same(after[0], got["ok"], 0):
                raise Violation("stored", f"call {idx} ({op['m']}) returned {world.describe(got['ok'])} but stored {world.describe(after[0])}")
            if failed:
                ctx.nontrivial = True
            if certain:
                clean.append(plain_op)
                checks.append((idx, got, after))
    if failed and checks:
        ref = ctx.child_ok(history, ctx.fresh_dir(), clean)
        for (idx, got, after), (g2, _, a2, _) in zip(checks, ref):
            if not world.same(got, g2, rtol) or not world.same(after, a2, rtol):
                raise Violation("follow-up", f"call {idx} ({steps[idx]['m']}) gave {world.describe(got)} after failed calls, {world.describe(g2)} without them; state {world.describe(after)} / {world.describe(a2)}")


def shrink(plan):
    yield from common.shrink_steps(plan)
