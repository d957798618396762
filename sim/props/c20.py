"""C20: what metric objects show always follows their last successful scores."""
import copy
import io
import operator
import re
import contextlib
import math
import warnings

import common
import core
import env
import world
from core import Violation

ID = "C20"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
RULE = "a run is one process holding 2-4 metric objects that go through 6-24 events: score calls (valid, invalid, fault-hit, interrupted), multi-metric calculations, comparisons with each other and with numbers, sorting, fusion, printing, repr; non-trivial: a comparison or fusion of objects with scores took place after a failed call or a second score; counted once per distinct plan"
STATE_MEASURE = "(query kind and operator, metric types, scores present?, kind and outcome of the last call on the first object, fault kind)"
REAL = common.LIB
STUB = ["Ctrl-C delivery (raised at a chosen library source line)", "failing allocations and I/O errors (seams)", "other reader (observer called at every library line)"]
ASSUMPTIONS = ["the value returned by a successful score call is the last score (C05 judges the value itself)",
               "a printed value is the last number in the printed text and agrees with the score within the requested decimals"]
RELS = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}
MEM = ("signal_center", "background_center", "radius")


def gen(rng, tier, i):
    g = world.Gen(rng, wide=0.2, pool=2)
    nm = rng.randrange(2, 5)
    names = rng.choices(g.METRICS, [9, 9, 5, 5, 3, 2, 3, 3, 3, 3, 7, 7], k=nm)
    if rng.random() < 0.5:
        names[1] = names[0]
    metrics, events = [], []
    for k, m in enumerate(names):
        metrics.append({"m": m, "init": g.score(m, invalid=0)["init"], "obj": f"o{k}"})

    twins = names[0] == names[1] and rng.random() < 0.7
    if twins:
        metrics[1]["init"] = metrics[0]["init"]
    done = {}

    def score(k):
        if twins and k < 2 and 1 - k in done and rng.random() < 0.7:   # the same images on a like object
            return ["score", k, dict(copy.deepcopy(done[1 - k]), obj=f"o{k}"), False]
        op = g.score(names[k], invalid=0.3)
        done[k] = op
        op["init"], op["obj"] = metrics[k]["init"], f"o{k}"
        if rng.random() < 0.25:
            op["fault"] = world.gen_fault(rng, ("int", "int", "mem", "mem", "io", "nat"))
        return ["score", k, op, rng.random() < 0.4]
    for k in range(nm):
        if rng.random() < 0.8:
            events.append(score(k))
    n = rng.randrange(6, 16 if tier == "quick" else 24)
    while len(events) < n:
        x = rng.random()
        k, j = rng.randrange(nm), rng.randrange(nm)
        if twins and rng.random() < 0.3:
            k, j = rng.sample([0, 1], 2)
        if x < 0.3:
            events.append(score(k))
        elif x < 0.34:
            op = g.multi()
            for q, m in enumerate(op["ms"]):
                m["obj"] = f"x{len(events)}.{q}"
            events.append(["multi", op, rng.randrange(0, 6)])
        elif x < 0.55:
            events.append(["cmp", k, rng.choice(sorted(RELS)), j])
        elif x < 0.7:
            events.append(["num", k, rng.choice(sorted(RELS)), rng.choice([0, -0.5, 0.5, None, 1e9, "nan", 0.0])])
        elif x < 0.8:
            ks = [rng.randrange(nm) for _ in range(rng.randrange(1, 5))]
            ws = [rng.choice([0.5, 0.25, -1.0, 0, 2, 1 / 3]) for _ in ks]
            if rng.random() < 0.15:
                ws = ws[:-1] if rng.random() < 0.5 else ws + [1.0]
            events.append(["fuse", ks, ws, rng.random() < 0.3])
        elif x < 0.87:
            events.append(["print", k, rng.randrange(0, 7) if rng.random() < 0.8 else None])
        elif x < 0.93:
            events.append(["repr", k])
        else:
            events.append(["sort", rng.random() < 0.5])
    return {"metrics": metrics, "events": events}


def number(text):
    found = re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)", text)
    return float(found[-1]) if found else None


def printed_ok(text, value, decimals):
    v = number(text)
    if v is None:
        return False
    if math.isnan(value) or math.isinf(value):
        return repr(v) == repr(float(value))
    return abs(v - value) <= 0.5000001 * 10.0 ** -decimals + 1e-6 * abs(value) + 1e-12


def attempt(f):
    try:
        return ["ok", f()]
    except Exception as e:
        return ["exc", type(e).__name__]


def same_outcome(a, b, tol=0.0):
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return True
    x, y = a[1], b[1]
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    return core.close(x, y, tol)


def val(v):
    """A stored score as a number (None: no single number)."""
    if v is None or isinstance(v, str):
        return None
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def history(d, plan):
    warnings.simplefilter("ignore")
    w = world.World(d)
    objs, model, last = [], [], []
    for m in plan["metrics"]:
        objs.append(w.obj(m))
        model.append(objs[-1].score_val)
        last.append(["new", None])
    bad, log = [], []
    had = 0

    def wrong(what, got, want):
        bad.append(f"{what}: got {got}, the last scores {model} give {want}")

    def quiet(f):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            r = attempt(f)
        return r, b.getvalue()

    for n, e in enumerate(plan["events"]):
        kind = e[0]
        sig = []
        if kind == "score":
            k, op, watch = e[1], e[2], e[3]
            o = objs[k]
            f = op.get("fault")
            seen = []
            if watch and not f:
                import simsched

                def act(step):
                    v = o.score_val
                    if v is not model[k] and not any(v is s for s in seen):
                        seen.append(v)

                got = w.call(op, lambda body: simsched.Sched("line", observer=act, max_steps=10 ** 7).run_here(body))
                fired = 0
            else:
                got = w.call_with(op, f)
                fired = w.fired if f else 0
            if "ok" in got:
                had += model[k] is not None
                new = val(got["ok"])
                now = val(o.score_val)
                if new is not None and not core.close(new, now, 0):
                    bad.append(f"event {n}: {op['m']}.score returned {new}, the object holds {now}")
                allowed = [o.score_val]
                model[k] = o.score_val
                last[k] = ["ok", f["k"] if fired else None]
            else:
                had += 1
                if fired and got["exc"] == "KeyboardInterrupt":
                    model[k] = o.score_val        # before or after storing; C06 judges which
                allowed = []
                last[k] = [got["exc"], f["k"] if fired else None]
            for v in seen:
                if not any(v is a or core.close(val(v), val(a), 0) for a in allowed):
                    bad.append(f"event {n}: while {op['m']}.score ran, the object showed {v!r}; before {model[k]!r}, result {got}")
            log.append([kind, "fault_" + f["k"] if fired else None])
            continue
        if kind == "multi":
            op, dec = e[1], e[2]
            got = w.call(op)
            if "ok" in got:
                res, text = quiet(lambda: w.last_batch.print_values(dec))
                lines = text.strip().split("\n") if text.strip() else []
                if res[0] != "ok" or len(lines) != len(got["ok"]):
                    bad.append(f"event {n}: print_values printed {text!r} ({res}) for {got['ok']}")
                else:
                    for line, (name, v) in zip(lines, got["ok"].items()):
                        if not line.startswith(name) or (val(v) is not None and not printed_ok(line[len(name):], val(v), dec)):
                            bad.append(f"event {n}: print_values({dec}) printed {line!r} for {name} = {v}")
            log.append([kind, None])
            continue
        if kind == "cmp":
            _, k, rel, j = e
            got = attempt(lambda: RELS[rel](objs[k], objs[j]))
            want = attempt(lambda: RELS[rel](model[k], model[j]))
            if not same_outcome(got, want):
                wrong(f"event {n}: {rel} of objects {k} and {j}", got, want)
            sig = [rel, model[k] is None, model[j] is None]
        elif kind == "num":
            _, k, rel, d0 = e
            s = val(model[k])
            num = (float("nan") if d0 == "nan" else d0 if d0 in (0, None, 1e9) else (s or 0) + d0)
            if d0 == 0.0 and isinstance(d0, float):
                num = s
            got = attempt(lambda: RELS[rel](objs[k], num))
            want = attempt(lambda: RELS[rel](model[k], num))
            if not same_outcome(got, want):
                wrong(f"event {n}: {rel} of object {k} and {num}", got, want)
            sig = [rel, s is None, str(d0)]
        elif kind == "fuse":
            _, ks, ws, tup = e
            ms = [objs[q] for q in ks]
            args = (tuple(ms), tuple(ws)) if tup else (ms, list(ws))
            got = attempt(lambda: env.viqa.fuse_metrics_linear_combination(*args))
            if len(ks) != len(ws) or any(model[q] is None for q in ks):
                want = ["exc", "TypeError or ValueError"]
            else:
                want = ["ok", math.fsum(float(model[q]) * x for q, x in zip(ks, ws))] if all(val(model[q]) is not None for q in ks) else None
            scale = sum(abs((val(model[q]) or 0) * x) for q, x in zip(ks, ws))
            if want is not None and not (same_outcome(got, want, 1e-6)
                                         or got[0] == want[0] == "ok" and abs(float(got[1]) - want[1]) <= 1e-6 * scale):
                wrong(f"event {n}: fusion of {ks} with {ws}", got, want)
            sig = [len(ks), len(ks) == len(ws), want and want[0]]
        elif kind == "print":
            _, k, dec = e
            res, text = quiet(lambda: objs[k].print_score(*([] if dec is None else [dec])))
            s = val(model[k])
            if res[0] != "ok":
                wrong(f"event {n}: print_score of object {k}", res, "a text")
            elif s is not None and not printed_ok(text, s, 2 if dec is None else dec):
                wrong(f"event {n}: print_score({dec}) of object {k}", repr(text), s)
            elif model[k] is None and text and number(text.replace("VIFp", "")) is not None:
                wrong(f"event {n}: print_score of object {k} without a score", repr(text), "no number")
            sig = [model[k] is None]
        elif kind == "repr":
            k = e[1]
            res = attempt(lambda: repr(objs[k]))
            s = val(model[k])
            v = number(res[1]) if res[0] == "ok" else None
            if res[0] != "ok" or (s is not None and (v is None or not core.close(v, s, 1e-6))) or (model[k] is None and v is not None):
                wrong(f"event {n}: repr of object {k}", res, s)
            sig = [model[k] is None]
        elif kind == "sort":
            ids = list(range(len(objs)))
            got = attempt(lambda: [next(q for q in ids if objs[q] is x) for x in sorted(objs, reverse=e[1])])
            want = attempt(lambda: [q for q in sorted(ids, key=lambda q: model[q], reverse=e[1])])
            if any(val(v) is not None and math.isnan(val(v)) for v in model):
                want = None
            if want is not None and (got[0] != want[0] or got[0] == "ok" and got[1] != want[1]):
                wrong(f"event {n}: sorting", got, want)
            sig = [want and want[0]]
        for k, o in enumerate(objs):
            if o.score_val is not model[k] and not core.close(val(o.score_val), val(model[k]), 0):
                bad.append(f"event {n} ({kind}) changed the score of object {k} from {model[k]} to {o.score_val}")
                model[k] = o.score_val
        first = e[1] if isinstance(e[1], int) and not isinstance(e[1], bool) else 0
        log.append([kind, None, sig, plan["metrics"][first]["m"], last[first], had > 0])
    return bad, log


def run(ctx, plan):
    events = []
    for e in plan["events"]:
        if e[0] == "score" and e[2].get("fault"):
            op = dict(e[2])
            op["fault"] = world.place(ctx, op, op["fault"])
            e = [e[0], e[1], op, e[3]]
        events.append(e)
    bad, log = ctx.child_ok(history, ctx.fresh_dir(), {**plan, "events": events})
    for r in log:
        ctx.count(r[0])
        if r[1]:
            ctx.count(r[1])
        if len(r) > 2:
            ctx.states.append(core.hashlib.sha256(repr((r[0], r[2], r[3], r[4])).encode()).hexdigest()[:12])
            if r[5] and r[0] in ("cmp", "num", "fuse", "sort"):
                ctx.nontrivial = True
    if bad:
        raise Violation("shown", bad[0])


def shrink(plan):
    for c in common.drop(plan["events"]):
        yield {**plan, "events": c}
    for i, e in enumerate(plan["events"]):
        if e[0] == "score":
            for s in common.simpler_op(e[2]):
                p = copy.deepcopy(plan)
                p["events"][i][2] = s
                yield p
            if e[3]:
                p = copy.deepcopy(plan)
                p["events"][i][3] = False
                yield p
