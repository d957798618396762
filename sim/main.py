"""Entry point of every check: main.py <property> [--replay F] [--runs N] [--workers N] [--log F]"""
import argparse
import importlib
import json
import os
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "props"))

import core  # noqa: E402
import env  # noqa: E402


def run_check(a, mod, scratch, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    nw = a.workers or min(8, os.cpu_count() or 1)
    total = a.runs or mod.RUNS[tier]
    wall = a.wall or (getattr(mod, "WALL", {"quick": 240, "thorough": 3000})[tier])
    print(f"[{mod.ID}] seed={seed} tier={tier} runs={total} workers={nw}", flush=True)
    findings = core.load_known()
    known = [k for k in findings if k["property"] == mod.ID]
    t1 = time.monotonic()
    res = core.run_pool(mod, seed, tier, total, scratch, nw, wall, a.start)
    t_run = time.monotonic() - t1
    done = sum(r["done"] for r in res)
    counters = {}
    for r in res:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    cases = set(c for r in res for c in r["cases"])
    plans = [c for c in cases if not c.startswith("s:")]
    states = len(cases) - len(plans)
    harness = [h for r in res for h in r["harness"]]
    viols = sorted((v for r in res for v in r["viols"]), key=lambda v: v["index"])
    samples = [s for r in res for s in r["samples"]][:4]
    status = 0
    confirmed = []
    ctx = core.Ctx(scratch, 99)
    ctx.states, ctx.nontrivial = [], False
    left = a.shrink
    for v in viols:
        if len(confirmed) >= 3:
            break
        # a violation must replay exactly before it is believed
        again = [core.execute(mod, ctx, v["plan"]) for _ in range(2)]
        if not all(x is not None and x["kind"] == v["violation"]["kind"] for x in again):
            harness.append({"index": v["index"], "error": f"not reproducible: {v['violation']} vs {again}"})
            continue
        t2 = time.monotonic()
        if v["violation"]["kind"] == "hang" or left <= 1:
            plan, viol, tried = v["plan"], v["violation"], 0
        else:
            plan, viol, tried = core.minimise(mod, ctx, v["plan"], v["violation"], left)
        left -= time.monotonic() - t2
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        path = os.path.join(core.VERIF, "replays", f"{mod.ID}-seed{seed}-{v['index']}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "seed": seed, "tier": tier, "run_index": v["index"],
                       "violation": viol, "shrink_steps_tried": tried, "plan": plan}, f, indent=1)
        confirmed.append((path, viol))
    for path, viol in confirmed:
        print(f"  {viol['kind']}: {viol['detail']}", flush=True)
        print(f"VIOLATION property={mod.ID} replay={path}", flush=True)
        status = 1
    for k in known:
        print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    if harness:
        for h in harness[:5]:
            print(f"[{mod.ID}] inconclusive run {h['index']}: {h['error']}", file=sys.stderr)
    if status == 0 and (len(harness) > max(3, 0.02 * max(done, 1)) or done == 0):
        print(f"[{mod.ID}] harness errors: {len(harness)} of {done} runs", file=sys.stderr)
        status = 2
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(plans),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no non-trivial run"}],
            "simulated_processes": sum(r["children"] for r in res),
            "distinct_states_reached": states,
            "state_measure": getattr(mod, "STATE_MEASURE", "none"),
            "counters": dict(sorted(counters.items())),
            "runs_per_hour": round(done / max(t_run, 1e-6) * 3600),
            "seeds_per_hour": round(done / max(t_run, 1e-6) * 3600),
            "simulated_time_covered_s": round(counters.get("sim_seconds", 0), 3),
            "components_real": mod.REAL, "components_stubbed": mod.STUB,
            "inconclusive_runs": len(harness), "planned_runs": total,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(core.VERIF, "evidence", f"{mod.ID}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)
    print(f"[{mod.ID}] {done} runs, {len(plans)} distinct non-trivial, {states} states, "
          f"{ev['coverage']['simulated_processes']} processes, {t_run:.1f}s + start {time.monotonic() - t0 - t_run:.1f}s; exit {status}")
    if a.verbose:
        print(json.dumps(ev["coverage"]["counters"], indent=1))
    return status


def replay(a, mod, scratch):
    with open(a.replay) as f:
        rec = json.load(f)
    ctx = core.Ctx(scratch, 0)
    ctx.states, ctx.nontrivial = [], False
    v = core.execute(mod, ctx, rec["plan"])
    if v is None:
        print(f"[{mod.ID}] replay: no violation")
        return 0
    print(f"  {v['kind']}: {v['detail']}")
    print(f"VIOLATION property={mod.ID} replay={a.replay}")
    return 1


def event_log(a, mod, scratch):
    """Determinism proof: one line per run with a digest of everything observed."""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(scratch, 0)
    with open(a.log, "w") as f:
        for i in range(a.start, a.start + (a.runs or 20)):
            rng = core.rng_for("verif", mod.ID, seed, "quick", i)
            plan = mod.gen(rng, "quick", i)
            ctx.states, ctx.nontrivial = [], False
            ctx.counters = {}
            try:
                v = core.execute(mod, ctx, plan)
            except core.HarnessError as e:
                v = {"harness": str(e)}
            f.write(json.dumps({"i": i, "plan": plan, "v": v, "states": ctx.states,
                                "c": ctx.counters, "nt": ctx.nontrivial}, sort_keys=True) + "\n")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--wall", type=float, default=0)
    ap.add_argument("--shrink", type=float, default=40)
    ap.add_argument("--log")
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    scratch = core.make_scratch()
    try:
        env.preload(scratch)
        mod = importlib.import_module(a.id.lower())
        if hasattr(mod, "setup"):
            mod.setup()
        if a.replay:
            return replay(a, mod, scratch)
        if a.log:
            return event_log(a, mod, scratch)
        return run_check(a, mod, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
