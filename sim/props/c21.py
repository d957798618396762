"""C21: QMeasure gives its engine exactly the image and reports exactly the engine's answer."""
import ctypes
import gc
import json

import numpy as np

import c04
import common
import core
import env
import world
from core import Violation

ID = "C21"
LEVEL = "exploration"
RUNS = {"quick": 1300, "thorough": 60000}
RULE = "a run is one process performing 1-6 QMeasure calls on 1-2 objects (any image layout, data type, file format; some invalid, fault-hit or interrupted), or one call in several hostile memory environments, or two to three threads with their own objects; non-trivial: a call reached the engine; counted once per distinct plan"
STATE_MEASURE = "(mode, image form or file format, data type, layout, parameters, fault kind and position decile, outcome)"
REAL = common.LIB + ["QMeasure class and its C++ binding (built from /repo's working tree)"]
STUB = ["the external Q-measure engine (submodule not available): a stand-in with the same interface whose answer depends on every voxel, its position, sizes, range and parameters and whose work memory can fail",
        "failing allocations, I/O errors, Ctrl-C (seams)", "hostile memory: guard pages, junk, red zones"]
ASSUMPTIONS = ["the engine reads dims[0]*dims[1]*dims[2] 32-bit floats in C order from the pointer it is given and reports trouble by C++ exceptions"]


def setup():
    if not hasattr(env.viqa, "QMeasure"):
        raise SystemExit("the Q-measure binding could not be built")


def call(g, rng, invalid=0.12):
    op = g.score("QMeasure", invalid=0)
    if rng.random() < invalid:
        w = rng.choice(["2d", "bins", "missing", "junk", "peaks", "str"])
        if w == "2d":
            op["a"] = {"i": g.spec((12, 14), "f32"), "f": "arr"}
        elif w == "bins":
            op["kw"]["hist_bins"] = 0
        elif w == "peaks":
            op["kw"]["num_peaks"] = -1
        elif w == "str":
            op["kw"]["hist_bins"] = "many"
        else:
            op["a"] = {"i": op["a"]["i"], "f": w}
    return op


def gen(rng, tier, i):
    g = world.Gen(rng, wide=0.2, pool=2, forms=["arr", "arr", "fort", "strided", "neg", "image", "tensor", "ro"])
    x = rng.random()
    if x < 0.5:
        inits = [None, None]
        steps = []
        for _ in range(rng.randrange(1, 7)):
            op = call(g, rng, 0.2)
            k = rng.randrange(2)
            inits[k] = op["init"] if inits[k] is None else inits[k]
            op["init"], op["obj"] = inits[k], f"q{k}"
            if op["init"].get("roi") and world.shape_of(op["a"]["i"]) == [12, 14]:
                op["a"]["i"] = g.spec((16, 16, 16), "f32")
            if rng.random() < 0.35:
                op["fault"] = world.gen_fault(rng, ("int", "mem", "mem", "io", "nat", "nat"))
            steps.append(op)
        return {"mode": "hist", "steps": steps}
    if x < 0.8:
        envs = [{"mode": rng.choice([1, 3, 5, 9, 4, 7]), "seed": rng.randrange(1, 1 << 30)} for _ in range(2)]
        return {"mode": "mem", "op": call(g, rng, 0.05), "envs": envs}
    threads = [[call(g, rng, 0.05) for _ in range(rng.randrange(1, 3))] for _ in range(rng.choice([2, 2, 3]))]
    return {"mode": "thr", "threads": threads, "scheds": [c04.schedule(rng, len(threads)) for _ in range(3)]}


def engine(v, bins, peaks):
    """What the stand-in answers for the voxels in C order."""
    v = np.ascontiguousarray(v, dtype=np.float32)
    d = v.shape
    n = d[0] * d[1] * d[2]
    i = np.arange(n)
    w = 1.0 + (i * 7919 % 1009) / 1009.0
    acc = float(np.dot(w, v.reshape(-1)[:n].astype(np.float64)))
    h = float(w[i % bins == bins // 2].sum())
    return (acc / n + 0.5 * int(v.min()) + 0.25 * int(v.max()) + h / n + 3.0 * peaks + 0.001 * (d[0] + 2.0 * d[1] + 3.0 * d[2]))


def expected(d, op):
    """The right outcome, from the stored voxels."""
    import warnings
    warnings.simplefilter("ignore")
    ref, kw = op["a"], op.get("kw", {})
    if ref["f"] in ("missing", "junk"):
        return {"exc": "any"}
    spec = ref["i"]
    a = world.loaded_as(ref["f"][5:], spec) if ref["f"].startswith("file:") else world.make(spec)
    init = world.arg_values(op.get("init", {}))
    try:
        v = np.asarray(env.viqa.load_data(a, data_range=init.get("data_range", 255), normalize=init.get("normalize", False), roi=init.get("roi")))
    except Exception:
        return {"exc": "any"}
    bins, peaks = kw.get("hist_bins", 128), kw.get("num_peaks", 2)
    if v.ndim < 3 or not isinstance(bins, int) or bins < 1 or peaks < 1:
        return {"exc": "any"}
    return {"ok": engine(v, bins, peaks)}


def want(ctx, op):
    op = world.strip(op)
    key = "q" + json.dumps(op, sort_keys=True)
    if key not in ctx.oracle_cache:
        ctx.oracle_cache[key] = ctx.child_ok(expected, ctx.fresh_dir(), op)
    return ctx.oracle_cache[key]


def agree(got, w):
    return "exc" in got if "exc" in w else "ok" in got and world.same(got["ok"], w["ok"], 1e-9)


def state(o):
    return None if o is None else [world.plain(o.score_val), world.plain(o.parameters)]


def history(d, steps):
    w = world.World(d)
    out = []
    for op in steps:
        if op["obj"] not in w.objs:
            w.obj(op)
        before = state(w.objs[op["obj"]])
        other = [state(o) for k, o in sorted(w.objs.items()) if k != op["obj"]]
        got = w.call_with(op, op.get("fault"))
        after = state(w.objs[op["obj"]])
        rest = [state(o) for k, o in sorted(w.objs.items()) if k != op["obj"]]
        changed = [k for k, (a, spec) in w.arrays.items() if not np.array_equal(np.asarray(a), world.make(spec))]
        out.append([got, before, after, w.fired if op.get("fault") else 0, other != rest, changed, env.shim.lib.simm_live()])
    return out


def hostile(d, op, e):
    ctypes.CDLL(None).mallopt(-6, 85)
    env.simalloc.install()
    env.simalloc.configure(e["mode"], e["seed"], -1, 0, 0)
    env.shim.lib.simm_config(-1, 0, 1, 77)
    env.shim.lib.simm_guard(1)
    w = world.World(d)
    out = w.call(op)
    for a, _ in w.arrays.values():
        env.simalloc.check(a)
    w = None
    gc.collect()
    return [out, env.simalloc.stats()["corrupt"]]


def mark(ctx, mode, op, f, o):
    ctx.count("calls")
    ctx.count("calls_" + ("ok" if "ok" in o else "raising"))
    if "ok" in o:
        ctx.nontrivial = True
    ctx.states.append(core.hashlib.sha256(repr((mode, op["a"]["f"], world.dt_of(op["a"]["i"]), sorted(op.get("kw", {})), sorted(op.get("init", {})), f, o.get("exc"))).encode()).hexdigest()[:12])


def run(ctx, plan):
    mode = plan["mode"]
    ctx.count("mode_" + mode)
    if mode == "mem":
        op = plan["op"]
        w = want(ctx, op)
        for e in plan["envs"]:
            r = ctx.child(hostile, ctx.fresh_dir(), op, e)
            if r["status"] in ("signal", "exit"):
                raise Violation("out-of-bounds", f"process died ({r.get('sig') or r.get('code')}) in memory environment {e}; call {world.describe(op)}")
            if r["status"] != "ok":
                raise core.HarnessError(str(r))
            got, corrupt = r["value"]
            ctx.count("memory_environments")
            mark(ctx, mode, op, e["mode"], got)
            if corrupt:
                raise Violation("overrun", f"{corrupt} buffers overrun; call {world.describe(op)}")
            if not agree(got, w):
                raise Violation("answer", f"gave {world.describe(got)}, the engine's answer for the image is {world.describe(w)}; environment {e}, call {world.describe(op)}")
        return
    if mode == "thr":
        threads = plan["threads"]
        for sched in plan["scheds"]:
            base = ctx.child_ok(c04.simulate, ctx.fresh_dir(), threads, sched, [], True)
            r = ctx.child_ok(c04.simulate, ctx.fresh_dir(), threads, sched, c04.plan_switches(sched, base, len(threads)))
            ctx.count("switches", r["switched"])
            for t, (ops, res) in enumerate(zip(threads, r["res"])):
                for k, (op, (got, stored, late)) in enumerate(zip(ops, res)):
                    w = want(ctx, op)
                    mark(ctx, mode, op, sched["gran"], got)
                    if not agree(got, w) or ("ok" in w and not (world.same(stored, w["ok"], 1e-9) and world.same(late, w["ok"], 1e-9))):
                        raise Violation("answer", f"thread {t} call {k} gave {world.describe(got)}, stored {stored}/{late}; the engine's answer for the image is {world.describe(w)}; call {world.describe(op)}")
        return
    steps, inits = [], {}
    for op in plan["steps"]:
        op = dict(op, init=inits.setdefault(op["obj"], op.get("init", {})))
        if op.get("fault"):
            op["fault"] = world.place(ctx, op, op["fault"])
        steps.append(op)
    res = ctx.child_ok(history, ctx.fresh_dir(), steps)
    for n, (op, (got, before, after, fired, other, changed, live)) in enumerate(zip(steps, res)):
        f = op.get("fault")
        w = want(ctx, op)
        mark(ctx, mode, op, fired and (f["k"], int(f["at"] * 10)), got)
        if fired:
            ctx.count("fault_" + f["k"])
        where = f"call {n} ({world.describe(op)})"
        if not (agree(got, w) or (fired and "exc" in got)):
            raise Violation("answer", f"{where} gave {world.describe(got)}, the engine's answer for the image is {world.describe(w)}")
        if "ok" in got and not world.same(after[0], got["ok"], 0):
            raise Violation("stored", f"{where} returned {got['ok']} but stored {after[0]}")
        if "exc" in got:
            ok = [before[0]] + ([w["ok"]] if fired and f["k"] == "int" and "ok" in w else [])
            if not any(world.same(after[0], v, 1e-9) for v in ok):
                raise Violation("score-changed", f"{where} raised {got['exc']} and left score {after[0]}, before {before[0]}")
        if not world.same(after[1], before[1], 0):
            raise Violation("parameters-changed", f"{where} changed the parameters from {before[1]} to {after[1]}")
        if other:
            raise Violation("other-changed", f"{where} changed another object")
        if changed:
            raise Violation("input-changed", f"{where} changed its input image")
        if live:
            raise Violation("leak", f"{where} left {live} bytes of engine memory")


def shrink(plan):
    if plan["mode"] == "hist":
        yield from common.shrink_steps(plan)
    elif plan["mode"] == "mem":
        for c in common.drop(plan["envs"]):
            yield common.with_key(plan, "envs", c)
        for s in common.simpler_op(plan["op"]):
            yield common.with_key(plan, "op", s)
    else:
        yield from c04.shrink(plan)
