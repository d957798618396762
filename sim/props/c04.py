"""C04: concurrent callers with their own metric objects do not disturb each other."""
import copy
import json

import common
import core
import simsched
import world
from core import Violation

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 60000}
RULE = "a run is 1-6 interleavings of the same 2-4 caller threads, each performing 1-2 library calls on its own objects with inputs, files and parameter containers possibly shared; non-trivial: at least one switch happened inside a library call; counted once per distinct plan"
STATE_MEASURE = "(unordered set of calls running together, function and line at which a thread was preempted)"
REAL = common.LIB
STUB = ["thread scheduling (real threads, one runs at a time, switched only where the plan says)", "threading.Lock/RLock (scheduled look-alikes)"]
ASSUMPTIONS = ["threads are switched at library source lines or bytecodes, not inside third-party packages",
               "pictures are left out (matplotlib's pyplot is documented not to be thread safe)"]


def gen(rng, tier, i):
    g = world.Gen(rng, wide=0.1, pool=2, forms=["arr", "arr", "fort", "strided", "image", "tensor", "ro"])
    n = rng.choice([2, 2, 2, 3, 4])
    w = [60, 8, 5, 4, 3, 6, 14, 6, 6, 5, 0, 2]
    same = rng.random() < 0.65
    kind = g.any(w)
    kind = (kind["op"], kind.get("m"), kind.get("fn") if kind["op"] == "util" else None)
    threads = []
    if rng.random() < 0.12:      # several files are loaded at once
        return {"threads": loads(g, n), "scheds": [schedule(rng, n) for _ in range(6)]}
    for t in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            if same:
                op = one(g, kind)
            else:
                op = g.export(pictures=False) if rng.random() < 0.08 else g.any(w[:9] + [0, 0, 2])
            if op["op"] == "export" and op.get("kw", {}).get("image"):
                op["kw"].pop("image")
            if op["op"] in ("export", "describe"):
                op["out"] = f"out{t}{len(ops)}"
            b = op.get("of", op)
            if b["op"] == "batch":
                b["dir"] = f"batch{t}{len(ops)}"
            ops.append(op)
        threads.append(ops)
    x = rng.random()
    if x < 0.2:        # twins: the same call, parameters changed in one place
        threads[1] = copy.deepcopy(threads[0])
        for op in threads[1]:
            if op.get("kw"):
                other = one(g, (op["op"], op.get("m"), op.get("fn") if op["op"] == "util" else None))
                for k in op["kw"]:
                    if k in other.get("kw", {}) and rng.random() < 0.5:
                        op["kw"][k] = other["kw"][k]
            if op["op"] in ("export", "describe"):
                op["out"] = "outT" + op["out"]
    return {"threads": threads, "scheds": [schedule(rng, n) for _ in range(rng.choice([1, 2, 3]))]}


def loads(g, n):
    """Loads of different files, mostly of one format."""
    r = g.rng
    ext = r.choice(["raw", "raw", "mhd", "nii", "nii.gz", "png", "bmp", "tiff"])
    out = []
    for t in range(n):
        e = ext if r.random() < 0.85 else r.choice(["raw", "mhd"])
        if e in ("raw", "mhd"):
            sp = g.spec(r.choice(g.SHAPES3), r.choice(["u8", "u16", "f32", "f64"]))
        elif e in ("nii", "nii.gz"):
            sp = g.spec(r.choice(g.SHAPES3 + g.SHAPES2), r.choice(["u8", "u16", "f32", "f64"]))
        else:
            sp = g.spec(r.choice(g.SHAPES2 + [(16, 20, 3)]), "u8")
        kw = {}
        if r.random() < 0.3:
            kw = {"data_range": r.choice([1, 255, 65535]), "normalize": True}
        if r.random() < 0.2:
            kw["roi"] = g.roi(world.shape_of(sp), 0.8)
        out.append([{"op": "load", "a": {"i": sp, "f": "file:" + e}, "kw": kw} for _ in range(r.choice([1, 1, 2]))])
    return out


def schedule(rng, n):
    sched = {"gran": rng.choice(["line", "line", "ins"])}
    x = rng.random()
    if x < 0.35:       # switch at lines chosen evenly over the code, not over the running time
        sched["site"] = [[round(rng.random(), 5), rng.randrange(n)] for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
    elif x < 0.65:
        sched["sw"] = sorted([round(rng.random(), 5), rng.randrange(n)] for _ in range(rng.choice([1, 1, 2, 3, 5, 9])))
    else:
        p = rng.choice([1, 1, 2, 3, 7, 29, 101])
        sched["period"] = p
        sched["skew"] = round(rng.random() * rng.choice([0, 0.05, 0.3]), 5)
        if rng.random() < 0.5:
            sched["jitter"] = rng.randrange(1 << 30)
    return sched


def one(g, kind):
    op, m, fn = kind
    if op == "score":
        return g.score(m, invalid=0.05)
    if op == "export":
        return g.export(pictures=False)
    for _ in range(40):
        o = getattr(g, op)()
        if fn is None or o.get("fn") == fn:
            return o
    return o


class Caller(world.World):
    """One caller; arrays, files and containers of equal content are shared between callers."""

    def __init__(self, d, shared):
        super().__init__(d)
        self.arrays, self.files, self.boxes, self.keep = shared

    def args(self, kw):
        key = json.dumps(kw, sort_keys=True)
        if key not in self.boxes:
            self.boxes[key] = super().args(kw)
        return self.boxes[key]


def simulate(d, threads, sched, switches, record=False):
    import warnings
    warnings.simplefilter("ignore")
    shared = ({}, {}, {}, [])
    bodies = []
    callers = []
    for t, ops in enumerate(threads):
        bs = []
        for k, op in enumerate(ops):
            w = Caller(d, shared)
            w.objs = {}
            bs.append((w, getattr(w, "op_" + op["op"])(op)))
        bodies.append(bs)

    def caller(bs):
        def go():
            out = []
            for w, b in bs:
                w.last_obj = None
                try:
                    r = {"ok": world.plain(b())}
                except Exception as e:
                    r = {"exc": world.exc_name(e)}
                o = w.last_obj
                out.append([r, world.plain(o.score_val) if o is not None else None])
            return out
        return go

    s = simsched.Sched(sched["gran"], switches=switches, max_steps=3 * 10 ** 6, record=record)
    res = s.run([caller(bs) for bs in bodies])
    # every object is looked at again after all callers have finished
    for bs, r in zip(bodies, res):
        if isinstance(r, list):
            for (w, _), x in zip(bs, r):
                x.append(world.plain(w.last_obj.score_val) if w.last_obj is not None else None)
    if record:
        own = [sorted(v for (t, _, _), v in s.firsts.items() if t == k) for k in range(len(threads))]
        return {"steps": s.step, "own": [[x - o[0] for x in o] if o else [] for o in own]}
    return {"res": res, "steps": s.step, "switched": s.switched, "sites": sorted(map(list, s.sites)), "deadlock": s.deadlock}


def plan_switches(sched, base, n):
    total = base["steps"]
    if "site" in sched:      # positions are kept per thread; the plan follows who runs when
        pos, cur, at, out = [0] * n, 0, 0, []
        for r, t in sched["site"]:
            own = [x for x in base["own"][cur] if x >= pos[cur]]
            if not own:
                break
            x = own[min(len(own) - 1, int(r * len(own)))]
            at += x - pos[cur]
            pos[cur] = x
            cur = (cur + 1 + t % max(1, n - 1)) % n
            out.append([at, cur])
        return out
    if "sw" in sched:
        out, cur = [], 0
        for r, t in sched["sw"]:
            cur = (cur + 1 + t % max(1, n - 1)) % n
            out.append([int(r * total), cur])
        return out
    out = []
    pos = int(sched["skew"] * total)
    t = 0
    rng = core.rng_for("jit", sched.get("jitter", 0))
    while pos < total * 1.2 and len(out) < 400000:
        t = (t + 1) % n
        out.append([pos, t])
        pos += rng.randrange(1, 2 * sched["period"] + 1) if "jitter" in sched else sched["period"]
    return out


def run(ctx, plan):
    for sched in plan["scheds"]:
        interleave(ctx, plan["threads"], sched)


def interleave(ctx, threads, sched):
    key = "steps" + json.dumps([threads, sched["gran"]], sort_keys=True)
    if key not in ctx.oracle_cache:
        ctx.oracle_cache[key] = ctx.child_ok(simulate, ctx.fresh_dir(), threads, sched, [], True)
    base = ctx.oracle_cache[key]
    r = ctx.child_ok(simulate, ctx.fresh_dir(), threads, sched, plan_switches(sched, base, len(threads)))
    ctx.count("interleavings")
    ctx.count("switches", r["switched"])
    ctx.count("steps", r["steps"])
    ctx.count("gran_" + sched["gran"])
    ctx.nontrivial = ctx.nontrivial or r["switched"] > 0
    names = [[op.get("m") or op.get("fn") or op["op"] for op in ops] for ops in threads]
    for site in r["sites"][:40]:
        ctx.states.append(core.hashlib.sha256(repr((sorted(map(str, names)), site)).encode()).hexdigest()[:12])
    if r["deadlock"]:
        raise Violation("deadlock", f"callers {names} block each other forever")
    for t, (ops, res) in enumerate(zip(threads, r["res"])):
        for k, (op, x) in enumerate(zip(ops, res)):
            got, stored, late = x
            want, wsv = world.fresh_outcome(ctx, op)
            ctx.count("calls")
            ctx.count("calls_ok" if "ok" in want else "calls_raising")
            rtol = world.rtol_of(op.get("of", op))
            if not world.same(got, want, rtol):
                raise Violation("disturbed", f"thread {t} call {k} ({names[t][k]}) gave {world.describe(got)} among {names}, alone {world.describe(want)}")
            if not world.same(stored, wsv, rtol) or not world.same(late, wsv, rtol):
                raise Violation("stored", f"thread {t} call {k} ({names[t][k]}) stored {world.describe(stored)}, later {world.describe(late)}; alone {world.describe(wsv)}")


def shrink(plan):
    n = len(plan["threads"])
    for t in range(n):
        if n > 2:
            p = copy.deepcopy(plan)
            del p["threads"][t]
            yield p
        if len(plan["threads"][t]) > 1:
            for k in range(len(plan["threads"][t])):
                p = copy.deepcopy(plan)
                del p["threads"][t][k]
                yield p
    if len(plan["scheds"]) > 1:
        for c in plan["scheds"]:
            yield {**plan, "scheds": [c]}
        return
    sched = plan["scheds"][0]
    for how in ("sw", "site"):
        for c in common.drop(sched.get(how, [])):
            yield {**plan, "scheds": [{**sched, how: c}]}
    if sched.get("jitter"):
        yield {**plan, "scheds": [{k: v for k, v in sched.items() if k != "jitter"}]}
    for t in range(n):
        for k, op in enumerate(plan["threads"][t]):
            for s in common.simpler_op(op):
                p = copy.deepcopy(plan)
                p["threads"][t][k] = s
                yield p
