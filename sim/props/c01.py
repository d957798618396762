"""C01: batch results equal the scores of each pair computed on its own."""
import copy
import json

import numpy as np

import common
import core
import env
import world
from core import Violation

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 20000}
RULE = "a run is one simulated process performing 1-4 batch or multi-metric calculations over sequences of pairs with repetitions; non-trivial: a batch of at least two pairs succeeded; counted once per distinct plan"
STATE_MEASURE = "(relation of a pair to its predecessor: same/other reference, modified, ROI, shape; metric type; ROI kind; earlier calculation on the object?)"
REAL = common.LIB + ["file system (scratch directory)"]
STUB = ["progress bar monitor thread disabled"]
ASSUMPTIONS = ["a fork of the process taken right after importing the library is a fresh process",
               "the direct model resizes with scikit-image and scores with a fresh metric object in a fresh process; it is used when no normalisation is requested"]


def gen(rng, tier, i):
    g = world.Gen(rng, pool=3)
    steps = []
    first = None
    for k in range(rng.randrange(1, 4 if tier == "quick" else 5)):
        if first is None or rng.random() < 0.25:
            op = g.batch(7 if tier == "quick" else 10, long=0.06)
            op["obj"] = f"B{k}"
            for j, m in enumerate(op["ms"]):
                m["obj"] = f"B{k}.{j}"
        else:
            op = copy.deepcopy(rng.choice(steps) if rng.random() < 0.5 else first)
            x = rng.random()
            if x < 0.3:            # the same object again
                pass
            elif x < 0.5:          # again with another global ROI
                small = [min(world.shape_of(f["i"])[q] for f in op["files"]) for q in range(len(world.shape_of(op["files"][0]["i"])))]
                op["kw"]["roi"] = g.roi(small, 0.8)
            elif x < 0.6:
                op["kw"].pop("roi", None)
            elif x < 0.8:          # files rewritten in place
                f = rng.choice(op["files"])
                f["i"] = {**f["i"], "s": f["i"]["s"] + 1000}
            else:                  # other batch object sharing the metric objects
                op["obj"] = f"C{k}"
                op["pairs"] = g.pair_list(len(op["files"]), rng.randrange(1, 6))
                op.pop("rois", None)
        if first is None:
            first = op
        if rng.random() < 0.05:
            rng.choice(op["files"])["gone"] = 1
        steps.append(op)
    return {"steps": steps}


def history(d, steps):
    w = world.World(d)
    out = []
    for op in steps:
        w.last_batch = w.last_returned = None
        o = w.call(op)
        out.append([o, world.plain(w.last_batch.results) if w.last_batch is not None else None,
                    w.last_batch is not None and w.last_returned is not None and w.last_returned is w.last_batch.results])
    return out


def direct(d, op):
    """The row of a single pair from first principles: stored voxels, resize, crop, score."""
    import warnings
    import skimage as ski
    a, b = [world.loaded_as(f["f"][5:], f["i"]) for f in op["files"]]
    kw = world.arg_values(op.get("kw", {}))
    roi = kw.get("roi")
    if roi is None and op.get("rois"):
        roi = world.arg_values(op["rois"])[0]
    row = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if a.shape != b.shape:
                b = ski.transform.resize(b, a.shape, preserve_range=True, order=kw.get("scaling_order", 1)).astype(a.dtype)
            if roi is not None:
                cut = tuple(slice(lo, hi) for lo, hi in roi)
                a, b = a[cut], b[cut]
            if a.shape[-1] == 3:
                return None
            for m in op["ms"]:
                o = getattr(env.viqa, m["m"])(**world.arg_values(m.get("init", {})))
                p = world.arg_values(m.get("kw", {}))
                if m["m"] in ("SNR", "CNR", "QMeasure"):
                    row[world.metric_name(o) + "_r"] = float(o.score(a.copy(), **p))
                    o = getattr(env.viqa, m["m"])(**world.arg_values(m.get("init", {})))
                    row[world.metric_name(o) + "_m"] = float(o.score(b.copy(), **p))
                else:
                    row[world.metric_name(o)] = float(o.score(a.copy(), b.copy(), **p))
        except Exception as e:
            return {"exc": type(e).__name__}
    return {"ok": world.plain(row)}


def single(op, k):
    """The call restricted to its k-th pair."""
    a, b = op["pairs"][k]
    fs = [op["files"][a], op["files"][b]]
    s = {"op": "batch", "files": fs, "pairs": [[0, 1]], "ms": op["ms"], "kw": op.get("kw", {}), "dir": "single"}
    if op.get("rois"):
        s["rois"] = [op["rois"][k]]
    if "sep" in op:
        s["sep"] = op["sep"]
    return s


def row_of(ctx, op, k):
    s = single(op, k)
    o = world.fresh_outcome(ctx, s)[0]
    if "ok" in o and list(o["ok"]) != ["0"]:
        raise Violation("rows", f"single pair batch returned rows {list(o['ok'])}")
    o = {"ok": o["ok"]["0"]} if "ok" in o else o
    kw = op.get("kw", {})
    if not kw.get("normalize") and not any(f.get("gone") or f.get("cut") for f in s["files"]):
        key = "direct" + json.dumps(world.strip(s), sort_keys=True)
        if key not in ctx.oracle_cache:
            ctx.oracle_cache[key] = ctx.child_ok(direct, None, world.strip(s))
        m = ctx.oracle_cache[key]
        ctx.count("direct_model_rows")
        if m is not None and not (("exc" in m and "exc" in o) or world.same(m, o, 1e-3 if world.dt_of(s["files"][0]["i"]) == "f32" else max(1e-6, world.rtol_of(op)))):   # memory layout may change float32 sums
            raise Violation("row-model", f"pair {k} alone gave {world.describe(o)}, scoring the stored images directly gives {world.describe(m)}")
    return o


def relation(op, k):
    if k == 0:
        return "first"
    p, q = op["pairs"][k - 1], op["pairs"][k]
    r = op.get("rois")
    sh = world.shape_of(op["files"][p[0]]["i"]) == world.shape_of(op["files"][q[0]]["i"])
    return (p[0] == q[0], p[1] == q[1], bool(r) and r[k - 1] == r[k], sh)


def run(ctx, plan):
    steps = plan["steps"]
    res = ctx.child_ok(history, ctx.fresh_dir(), steps)
    seen = set()
    made = {}
    for idx, (op, (got, stored, same_obj)) in enumerate(zip(steps, res)):
        if op["obj"] in made and made[op["obj"]] is not None:
            base = made[op["obj"]]       # pairs, ROIs and parameters were given when it was created
            op = {**op, "pairs": base["pairs"], "rois": base.get("rois"), "ms": base["ms"]}
        else:
            made[op["obj"]] = op
        rows = [row_of(ctx, op, k) for k in range(len(op["pairs"]))]
        rtol = world.rtol_of(op)
        bad = [r for r in rows if "exc" in r]
        ctx.count("calculations")
        ctx.count("rows", len(rows))
        if "exc" in got:
            ctx.count("calculations_raising")
            if not bad:
                raise Violation("raises", f"calculation {idx} raised {got['exc']} although every pair can be scored alone")
            if got["exc"] not in [b["exc"] for b in bad]:
                raise Violation("raises", f"calculation {idx} raised {got['exc']}, the pairs alone raise {[b['exc'] for b in bad]}")
        else:
            if bad:
                raise Violation("error-hidden", f"calculation {idx} returned although pair {[('exc' in r) for r in rows].index(True)} alone raises {bad[0]['exc']}")
            if list(got["ok"]) != [str(k) for k in range(len(rows))]:
                raise Violation("rows", f"calculation {idx} over {len(rows)} pairs returned rows {list(got['ok'])}")
            for k, r in enumerate(rows):
                if not world.same(got["ok"][str(k)], r["ok"], rtol):
                    raise Violation("row", f"calculation {idx}, pair {k} {op['pairs'][k]} (pairs {op['pairs']}): batch gave {world.describe(got['ok'][str(k)])}, alone {world.describe(r['ok'])}")
            if not world.same(stored, got["ok"], 0):
                raise Violation("stored", f"calculation {idx} returned {world.describe(got['ok'])} but stored {world.describe(stored)}")
            if len(rows) > 1:
                ctx.nontrivial = True
        for k in range(len(rows)):
            ctx.states.append(core.hashlib.sha256(repr((relation(op, k), [m["m"] for m in op["ms"]], sorted(op["kw"]), bool(op.get("rois")), op["obj"] in seen)).encode()).hexdigest()[:12])
        seen.add(op["obj"])


def shrink(plan):
    yield from common.shrink_steps(plan)
    for i, op in enumerate(plan["steps"]):
        for key in ("pairs", "ms"):
            for j in range(len(op[key])):
                if len(op[key]) > 1:
                    p = copy.deepcopy(plan)
                    for o in p["steps"]:
                        if o["obj"] == op["obj"]:
                            if len(o[key]) > j and len(o[key]) > 1:
                                del o[key][j]
                                if key == "pairs" and o.get("rois"):
                                    del o["rois"][j]
                    yield p
        if op.get("rois"):
            p = copy.deepcopy(plan)
            for o in p["steps"]:
                if o["obj"] == op["obj"]:
                    o.pop("rois", None)
            yield p
