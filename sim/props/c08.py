"""C08: failing allocation is reported, survivable and gives no wrong score."""
import copy

import common
import core
import world
from core import Violation

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = "a run is one library call repeated on the same objects with a failing allocation at several seeded positions (array buffers, native work buffers; once or from there on), then without; non-trivial: an allocation failed inside the call; counted once per distinct plan"
STATE_MEASURE = "(call kind, metric or function, fault kind, once or sticky, position decile, outcome)"
REAL = common.LIB
STUB = ["allocation of array data (numpy memory handler) and of the native module's work buffers (malloc family), failing on plan"]
ASSUMPTIONS = ["array buffers of 64 bytes or more and all allocations made by the native statistics module can fail; allocations inside torch and the Python object allocator do not fail"]


def gen(rng, tier, i):
    g = world.Gen(rng, wide=0.1, pool=3)
    x = rng.random()
    if x < 0.2:
        op = g.native()
    elif x < 0.4:
        op = g.score("MAD", invalid=0.05)
    else:
        op = g.any([50, 6, 5, 3, 4, 0, 8, 8, 5, 3, 1, 1])
    faults = []
    for _ in range(rng.randrange(2, 9)):
        k = "nat" if (op["op"] == "native" or op.get("m") == "MAD") and rng.random() < 0.6 else "mem"
        f = {"k": k, "at": round(rng.random(), 4)}
        if rng.random() < 0.3:
            f["sticky"] = 1
        faults.append(f)
    return {"op": op, "faults": faults}


def history(d, op, faults):
    w = world.World(d)
    op = copy.deepcopy(op)
    if op["op"] == "score":
        op["obj"] = "o"
    out = []
    for f in faults + [None]:
        w.last_obj = None
        got = w.call_with(op, f)
        o = w.last_obj
        out.append([got, world.plain(o.score_val) if o is not None else None, w.fired])
    return out


def run(ctx, plan):
    op = plan["op"]
    d = ctx.fresh_dir()
    want, wsv = world.fresh_outcome(ctx, op)
    faults = [x for x in (world.place(ctx, op, f) for f in plan["faults"]) if x]
    what = op.get("m") or op.get("fn") or op["op"]
    r = ctx.child(history, d, op, faults)
    if r["status"] in ("signal", "exit"):
        raise Violation("process-died", f"a failing allocation in {what} ended the process: {r.get('sig') or r.get('code')} {r['err'][-300:]}; faults {faults}")
    if r["status"] == "timeout":
        raise Violation("hang", f"a failing allocation in {what} made the process hang")
    if r["status"] != "ok":
        raise core.HarnessError(str(r))
    rtol = world.rtol_of(op.get("of", op))
    prev = None
    for f, (got, stored, fired) in zip(faults + [None], r["value"]):
        if fired:
            ctx.nontrivial = True
            ctx.count("fault_" + f["k"] + ("_sticky" if f.get("sticky") else ""))
            ctx.count("raised" if "exc" in got else "survived")
        if f:
            ctx.states.append(core.hashlib.sha256(repr((op["op"], what, f["k"], f.get("sticky"), int(f["at"] * 10), got.get("exc"), bool(fired))).encode()).hexdigest()[:12])
        if fired and "exc" in got:
            pass
        elif not world.same(got, want, rtol):
            raise Violation("wrong-result" if f else "retry", f"{what} gave {world.describe(got)} with {f}, without fault {world.describe(want)}; call {world.describe(op)}")
        if op["op"] == "score" and stored is not None and not world.same(stored, wsv, rtol):
            raise Violation("wrong-stored", f"{what} stored {world.describe(stored)} with {f}, without fault {world.describe(wsv)}")
    ctx.count("op_" + op["op"])


def shrink(plan):
    for c in common.drop(plan["faults"]):
        yield common.with_key(plan, "faults", c)
    for s in common.simpler_op(plan["op"]):
        yield common.with_key(plan, "op", s)
