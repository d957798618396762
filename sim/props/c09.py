"""C09: results do not depend on uninitialised or out-of-bounds memory."""
import ctypes
import gc
import importlib.util
import os
from importlib.machinery import ExtensionFileLoader

import common
import core
import env
import world
from core import Violation

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = "a run is one library call performed in a fresh process and again under several seeded memory environments (junk contents, displaced buffers, red zones, guard pages, junk stack variables in the native module); non-trivial: the call allocated at least one array; counted once per distinct plan"
STATE_MEASURE = "(call kind, metric or function, memory environment, input form, shape)"
REAL = common.LIB
STUB = ["memory behind numpy arrays and behind the native module's malloc, and heap memory handed out by malloc (contents, placement and surroundings chosen by the plan)"]
ASSUMPTIONS = ["memory obtained by torch, scipy and other packages for themselves comes from malloc, whose fresh contents are varied by M_PERTURB only"]
JUNK, ZONES, GUARD, JITTER = 1, 2, 4, 8
M_PERTURB = -6


def gen(rng, tier, i):
    g = world.Gen(rng, wide=0.15, pool=3, forms=["arr", "arr", "fort", "strided", "neg", "ro", "image", "tensor"])
    x = rng.random()
    if x < 0.22:
        op = g.native()
    elif x < 0.42:
        op = g.score("MAD", invalid=0.05)
    else:
        op = g.any([55, 7, 4, 3, 3, 0, 12, 6, 4, 1, 1, 1])
    envs = []
    for _ in range(rng.choice([2, 3, 4])):
        envs.append({"mode": rng.choice([JUNK, JUNK | ZONES, JUNK | JITTER, JUNK | ZONES | JITTER, JUNK | GUARD, GUARD]), "seed": rng.randrange(1, 1 << 30),
                     "nat": rng.randrange(256), "guard": rng.random() < 0.5, "perturb": rng.choice([0, rng.randrange(1, 255)]),
                     "stack": rng.random() < 0.5})
    return {"op": op, "envs": envs}


def native_variant():
    so = os.environ["VERIF_STATP_SO"]
    spec = importlib.util.spec_from_file_location(env.STAT_NAME, so, loader=ExtensionFileLoader(env.STAT_NAME, so))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def perform(d, op, e):
    if e["perturb"]:
        ctypes.CDLL(None).mallopt(M_PERTURB, e["perturb"])
    mod = native_variant() if e["stack"] and op["op"] == "native" else None
    env.simalloc.install()
    env.simalloc.configure(e["mode"], e["seed"], -1, 0, 0)
    env.shim.lib.simm_config(-1, 0, 1, e["nat"])
    env.shim.lib.simm_guard(int(e["guard"]))
    w = world.World(d)
    w.native_mod = mod
    out = w.call(op)
    for a, _ in w.arrays.values():
        env.simalloc.check(a)
    n = env.simalloc.stats()["allocs"]
    w = None
    gc.collect()
    return [out, env.simalloc.stats()["corrupt"], n]


def run(ctx, plan):
    op = plan["op"]
    want, _ = world.fresh_outcome(ctx, op)
    what = op.get("m") or op.get("fn") or op["op"]
    rtol = world.rtol_of(op.get("of", op))
    ctx.count("op_" + op["op"])
    ctx.count("ok" if "ok" in want else "raising")
    for e in plan["envs"]:
        r = ctx.child(perform, ctx.fresh_dir(), op, e)
        desc = f"{what} in memory environment {e}; call {world.describe(op)}"
        if r["status"] in ("signal", "exit"):
            raise Violation("out-of-bounds", f"process died ({r.get('sig') or r.get('code')}) {r['err'][-200:]} in {desc}")
        if r["status"] == "timeout":
            raise Violation("hang", desc)
        if r["status"] != "ok":
            raise core.HarnessError(str(r))
        got, corrupt, n = r["value"]
        ctx.count("mode_" + "".join(k for b, k in ((1, "J"), (2, "Z"), (4, "G"), (8, "D")) if e["mode"] & b))
        ctx.count("allocs", n)
        if n:
            ctx.nontrivial = True
        ctx.states.append(core.hashlib.sha256(repr((op["op"], what, e["mode"], e["guard"], e["stack"], op.get("a", {}).get("f"), world.shape_of(op["a"]["i"]) if "a" in op else 0)).encode()).hexdigest()[:12])
        if corrupt:
            raise Violation("overrun", f"{corrupt} array buffers were overrun: {desc}")
        if not world.same(got, want, rtol):
            raise Violation("memory-dependent", f"gave {world.describe(got)}, otherwise {world.describe(want)}: {desc}")


def shrink(plan):
    for c in common.drop(plan["envs"]):
        yield common.with_key(plan, "envs", c)
    for s in common.simpler_op(plan["op"]):
        yield common.with_key(plan, "op", s)
