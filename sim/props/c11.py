"""C11: exported results and metadata say what was computed, or the export raises."""
import csv
import datetime
import importlib.metadata
import math
import os
import resource
import time

import numpy as np

import common
import core
import env
import simsched
import world
from core import Violation

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 120000}
RULE = "a run is one process calculating and exporting (CSV, metadata, image statistics, reports) 2-6 times at simulated times, each export also hit by a failing open/write/close, a disk that is full at a seeded byte, or an interrupt, then retried; plus refused exports over existing files; non-trivial: at least one export file was read back; counted once per distinct plan"
STATE_MEASURE = "(exporter, fault kind and operation or byte decile, outcome, earlier calculations on the object, file existed before)"
REAL = common.LIB
STUB = ["clock (simulated time and time zone)", "write errors and full disk (file size limit, failing system calls)", "Ctrl-C delivery"]
ASSUMPTIONS = ["a full disk is a file size limit: bytes up to it are stored, later ones refused",
               "a number read back from its exported text with float() must be the stored number exactly"]
PRE = b"old,content\n" * 400


def gen(rng, tier, i):
    g = world.Gen(rng, pool=3)
    kind = rng.choice(["batch", "batch", "batch", "multi", "multi", "image"])
    if kind == "batch":
        sub = g.batch(5, long=0.08)
        sub["stem"] = rng.choice(["img", "img", "im g", "x,y", "\u00fcmg", 'q"u'])
        sub["obj"] = "b"
    elif kind == "multi":
        sub = g.multi()
        sub["mobj"] = "m"
    else:
        sub = {"op": "image", "a": g.ref(g.img(dts=("u8", "u16", "f32", "f64")), allow_file=False)}
        sub["a"]["f"] = "arr"
    steps = []
    for _ in range(rng.randrange(2, 7)):
        x = rng.random()
        if x < 0.25 and steps:
            steps.append({"do": "calc", "shift": rng.randrange(1, 5), "break": rng.random() < 0.3, "at": round(rng.random(), 3)})
        elif x < 0.38:
            steps.append({"do": "refuse", "way": rng.choice(["name", "args", "nodir", "empty"]), "what": exporter(rng, kind), "pre": rng.random() < 0.8})
        else:
            st = {"do": "export", "what": exporter(rng, kind), "pre": rng.random() < 0.6,
                  "t": rng.choice([0, 951782399, 1709210096, 1711846799, 1698541199, 2147483646, 4102444799]) + rng.randrange(3),
                  "step": rng.choice([0, 1000, 700_000_000]), "tz": rng.choice(["UTC", "UTC", "Europe/Vienna", "Asia/Kolkata", "America/St_Johns"])}
            y = rng.random()
            if y < 0.35:
                st["fault"] = {"k": "full", "at": round(rng.random(), 4)}
            elif y < 0.75:
                st["fault"] = {"k": "io", "at": round(rng.random(), 4), "act": rng.choice([1, 1, 1, 2]), "err": rng.choice([28, 5, 13, 30, 24])}
            elif y < 0.87:
                st["fault"] = {"k": "int", "at": round(rng.random(), 4)}
            steps.append(st)
    return {"sub": sub, "first": rng.random() < 0.85, "steps": steps}


def exporter(rng, kind):
    if kind == "image":
        return "describe"
    return rng.choice(["results", "results", "results", "metadata", "metadata", "scores", "ufree_meta", "report", "report_p"])


FILES = {"results": ["r.csv"], "metadata": ["m.txt"], "scores": ["s.csv"], "ufree_meta": ["u.txt"], "describe": ["d.csv"],
         "report": ["results.csv", "metadata.txt"], "report_p": ["pp_results.csv", "pp_metadata.txt"]}


def kinds_of(what):
    return {"results": ["res"], "metadata": ["meta"], "scores": ["scores"], "ufree_meta": ["meta"], "describe": ["stats"],
            "report": ["res", "meta"], "report_p": ["res", "meta"]}[what]


def number_matches(cell, v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v[()]
    if isinstance(v, (bool, str)) or v is None:
        return cell == str(v)
    try:
        x = float(cell)
    except ValueError:
        return False
    v2 = float(v)
    if math.isnan(v2):
        return math.isnan(x)
    if isinstance(v, (np.float32, np.float16)):
        return type(v)(cell) == v
    return x == v2


def read_csv(p):
    with open(p, newline="", encoding="utf-8") as f:
        return list(csv.reader(f))


class Subject:
    """What the exporting process has at hand."""

    def __init__(self, d, sub):
        self.w = world.World(d)
        self.sub = sub
        self.d = d
        self.calcs = 0
        self.obj = None
        self.make()

    def make(self):
        s = self.sub
        if s["op"] == "batch":
            self.w.bdir, self.w.bcsv = self.w.batch_paths(s)
            self.obj = self.w.batch_obj(s)
        elif s["op"] == "multi":
            params = [world.arg_values(m.get("kw", {})) for m in s["ms"]]
            self.obj = env.viqa.MultipleMetrics([self.w.obj(m) for m in s["ms"]], params)
            self.w.objs["m"] = self.obj
        else:
            self.obj = env.viqa.load_data(self.w.image(s["a"]))

    def calc(self, st=None):
        s = self.sub
        if s["op"] == "image":
            self.obj.calculate_statistics()
            self.calcs += 1
            return True
        op = s
        if st is not None and s["op"] == "batch":      # files are replaced between calculations
            op = {**s, "files": [{**f, "i": {**f["i"], "s": f["i"]["s"] + st["shift"]}} for f in s["files"]]}
            if st["break"]:
                k = int(st["at"] * len(op["files"]))
                op["files"] = [{**f, **({"gone": 1} if j == k else {})} for j, f in enumerate(op["files"])]
        elif st is not None:
            op = {**s, "b": {"i": {"k": "dist", "of": s["a"]["i"], "s": 70 + st["shift"], "amp": 0.2}, "f": "arr"}}
            op["a"] = {"i": s["a"]["i"], "f": "arr"}
            if st["break"]:
                op["b"] = {"i": s["b"]["i"], "f": "missing"}
        got = self.w.call(op)
        self.calcs += 1
        return "ok" in got

    def metrics(self):
        return self.obj.metrics

    def memory(self):
        """Everything an export must not change."""
        if self.sub["op"] == "image":
            return [np.array(self.obj), {k: world.plain(v) for k, v in sorted(self.obj.__dict__.items())}]
        return [world.plain(self.obj.results), [world.plain(m.score_val) for m in self.metrics()],
                [world.plain(m.parameters) for m in self.metrics()], world.plain(self.obj.metrics_parameters)]

    def export(self, what, d, names=None):
        o = self.obj
        n = names or FILES[what]
        if what == "results":
            return o.export_results(d, n[0])
        if what == "metadata":
            return o.export_metadata(d, n[0])
        if what == "scores":
            return env.viqa.export_results(o.metrics, d, n[0], return_dict=True)
        if what == "ufree_meta":
            return env.viqa.export_metadata(o.metrics, o.metrics_parameters, d, n[0])
        if what == "describe":
            return o.describe(d, n[0])
        kw = {"project_name": "pp"} if what == "report_p" else {}
        if self.sub["op"] == "multi":
            kw["text"] = False
        return o.report(csv=True, metadata=True, file_path=d, **kw)

    def verify(self, what, d, t0, t1, ret):
        """None or what is wrong with the files."""
        for kind, name in zip(kinds_of(what), FILES[what]):
            p = os.path.join(d, name)
            if not os.path.exists(p):
                return f"{name} was not written"
            bad = getattr(self, "v_" + kind)(p, t0, t1)
            if bad:
                return f"{name}: {bad}"
        if what == "scores" and ret is not None:
            want = {world.metric_name(m): ("n/a" if m.score_val is None else m.score_val) for m in self.metrics()}
            if list(ret) != list(want) or not world.same(world.plain(ret), world.plain(want), 0):
                return f"returned {ret}, scores are {want}"
        return None

    def v_res(self, p, t0, t1):
        rows = read_csv(p)
        res = self.obj.results
        if self.sub["op"] == "multi":
            if len(rows) != 2:
                return f"{len(rows)} rows instead of 2"
            if rows[0] != list(res):
                return f"header {rows[0]} instead of {list(res)}"
            if len(rows[1]) != len(res) or not all(number_matches(c, v) for c, v in zip(rows[1], res.values())):
                return f"values {rows[1]} instead of {list(res.values())}"
            return None
        if len(rows) != len(res) + 1:
            return f"{len(rows) - 1} rows for {len(res)} stored results"
        head = rows[0]
        names = list(res["0"])
        if sorted(head) != sorted(["pair_num", "reference_image", "modified_image"] + names):
            return f"header {head}"
        for k, row in zip(res, rows[1:]):
            if len(row) != len(head):
                return f"row {row} does not fit header {head}"
            r = dict(zip(head, row))
            if r["pair_num"] != k or [r["reference_image"], r["modified_image"]] != self.w.bnames[int(k)]:
                return f"row {k} names {r['pair_num']} {r['reference_image']} {r['modified_image']}, pair is {self.w.bnames[int(k)]}"
            for n in names:
                if not number_matches(r[n], res[k][n]):
                    return f"row {k}: {n} is {r[n]!r}, stored {res[k][n]!r}"
        return None

    def v_scores(self, p, t0, t1):
        rows = read_csv(p)
        ms = self.metrics()
        if len(rows) != len(ms) + 1:
            return f"{len(rows) - 1} rows for {len(ms)} metrics"
        for m, row in zip(ms, rows[1:]):
            if row[0] != world.metric_name(m) or len(row) != 2:
                return f"row {row} for {world.metric_name(m)}"
            if not (row[1] == "n/a" if m.score_val is None else number_matches(row[1], m.score_val)):
                return f"row {row}, score is {m.score_val!r}"
        return None

    def v_meta(self, p, t0, t1):
        with open(p, encoding="utf-8") as f:
            lines = [x.strip() for x in f.read().splitlines()]
        lines = [x for x in lines if x and set(x) not in ({"-"}, {"="})]
        ver = importlib.metadata.version("viqa")
        if not lines or lines[0] != f"vIQA_version: {ver}":
            return f"version line {lines[:1]}, version {ver}"
        ok = set()
        for s in range(int(t0), int(t1) + 1):
            ok.add("Time: " + datetime.datetime.fromtimestamp(s).strftime("%Y-%m-%d %H:%M:%S"))
        if lines[1] not in ok:
            return f"{lines[1]!r} while the clock shows {sorted(ok)[:3]}"
        want = ["custom metric parameters:"]
        for m, par in zip(self.metrics(), self.obj.metrics_parameters):
            want.append(str(m).split("(")[0].strip())
            want.append(f"data_range: {m.parameters['data_range']}")
            for k, v in par.items():
                want += [x.strip() for x in f"{k}: {v}".splitlines()]
        if lines[2:] != want:
            return f"parameters {lines[2:]}, given {want}"
        return None

    def v_stats(self, p, t0, t1):
        rows = read_csv(p)
        o = self.obj
        want = {"mean": o.mean_value, "median": o.median, "variance": o.variance, "standarddev": o.standarddev,
                "skewness": o.skewness, "kurtosis": o.kurtosis, "minimum": o.minimum, "maximum": o.maximum}
        if len(rows) != 2 or rows[0] != list(want):
            return f"rows {rows}"
        for c, (k, v) in zip(rows[1], want.items()):
            v = v[()] if isinstance(v, np.ndarray) and v.ndim == 0 else v
            if not number_matches(c, v):
                return f"{k} is {c!r}, statistic {v!r}"
        return None


def limited(body, nbytes):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, hard))
    try:
        return body()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def contents(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def no_time(c):
    return {n: b"\n".join(x for x in v.split(b"\n") if not x.startswith(b"Time:")) for n, v in c.items()}


def history(d, plan):
    import warnings
    warnings.simplefilter("ignore")
    notes = []
    s = Subject(d, plan["sub"])
    out = os.path.join(d, "out")
    os.makedirs(out)
    cnt = {}

    def count(k):
        cnt[k] = cnt.get(k, 0) + 1

    def prefill(what, names=None):
        for n in names or FILES[what]:
            with open(os.path.join(out, n), "wb") as f:
                f.write(PRE)

    def bad(kind, text):
        return {"bad": [kind, text], "cnt": cnt, "states": notes}

    def exportable(what):
        """Is there something to export (None: either answer is fine)?"""
        if what in ("results", "report", "report_p"):
            if s.sub["op"] == "batch":
                return bool(s.obj.results)
            return True if s.obj.results else None
        return True

    if plan["first"]:
        s.calc()
    lib = env.shim.lib
    for st in plan["steps"]:
        if st["do"] == "calc":
            count("calc_ok" if s.calc(st) else "calc_raising")
            continue
        what = st["what"]
        if st["do"] == "refuse":
            before = s.memory()
            names = None
            way = st["way"]
            call = None
            if way == "empty":
                if exportable(what) is not False:
                    continue
                call = lambda: s.export(what, out)
            elif way == "name":
                if what not in ("results", "metadata", "ufree_meta"):
                    continue
                names = ["data.txt" if what == "results" else "meta.csv"]
                if exportable(what) is not True:
                    continue
                call = lambda: s.export(what, out, names)
            elif way == "args":
                ms = s.obj.metrics if s.sub["op"] != "image" else []
                if what in ("metadata", "ufree_meta") and ms:
                    names = ["u.txt"]
                    call = lambda: env.viqa.export_metadata(ms, s.obj.metrics_parameters[:-1], out, "u.txt")
                elif what == "scores":
                    names = ["s.csv"]
                    call = lambda: env.viqa.export_results(list(ms) + [object()], out, "s.csv")
                else:
                    continue
            else:
                if exportable(what) is not True:
                    continue
                call = lambda: s.export(what, os.path.join(out, "no", "such"))
            if st["pre"]:
                prefill(what, names)
            old = contents(out)
            try:
                call()
                return bad("not-refused", f"{what} with {way} did not raise")
            except Exception as e:
                count("refused_" + way)
            if contents(out) != old:
                ch = [n for n in set(old) | set(contents(out)) if old.get(n) != contents(out).get(n)]
                return bad("refused-but-wrote", f"{what} refused ({way}) but changed {ch}")
            if not world.same(before, s.memory(), 0):
                return bad("export-changed-results", f"refused {what}")
            continue
        # a complete export: undisturbed, disturbed, again
        if exportable(what) is False:
            continue
        before = s.memory()
        os.environ["TZ"] = st["tz"]
        time.tzset()
        if st["pre"]:
            prefill(what)
        env.shim.start(out)
        lib.sim_clock(1, st["t"] * 10 ** 9 + 123, st["step"])
        try:
            sch = simsched.Sched("line", max_steps=10 ** 7)
            ret = sch.run_here(lambda: s.export(what, out))
        except Exception as e:
            env.shim.stop()
            lib.sim_clock(0, 0, 0)
            return bad("export-failed", f"{what} raised {type(e).__name__}: {e}")
        t1 = lib.sim_clock_now() // 10 ** 9
        lib.sim_clock(0, 0, 0)
        nio, lines = env.shim.count(), sch.step
        env.shim.stop()
        sizes = [os.path.getsize(os.path.join(out, n)) for n in FILES[what]]
        err = None if exportable(what) is None else s.verify(what, out, st["t"], t1, ret)
        if err:
            return bad("wrong-export", f"{what}: {err}")
        if not world.same(before, s.memory(), 0):
            return bad("export-changed-results", f"{what} changed {world.describe(before)} to {world.describe(s.memory())}")
        count("verified_" + what)
        clean = no_time(contents(out))
        f = st.get("fault")
        if f:
            if st["pre"]:
                prefill(what)
            raised = None
            fired = 0
            incomplete = False
            try:
                lib.sim_clock(1, st["t"] * 10 ** 9 + 123, st["step"])
                if f["k"] == "full":
                    lim = int(f["at"] * max(sizes))
                    incomplete = any(lim < z for z in sizes)
                    fired = 1
                    limited(lambda: s.export(what, out), lim)
                elif f["k"] == "io":
                    env.shim.start(out)
                    env.shim.plan("any", min(nio - 1, int(f["at"] * nio)), f["act"], 1, f["err"])
                    try:
                        s.export(what, out)
                    finally:
                        fired = env.shim.fired()
                        env.shim.stop()
                        env.shim.heal()
                else:
                    sch = simsched.Sched("line", interrupt=min(lines - 1, int(f["at"] * lines)), max_steps=10 ** 7)
                    try:
                        sch.run_here(lambda: s.export(what, out))
                    finally:
                        fired = int(sch.fired_interrupt)
            except (Exception, KeyboardInterrupt) as e:
                raised = type(e).__name__
            t1 = lib.sim_clock_now() // 10 ** 9
            lib.sim_clock(0, 0, 0)
            if fired:
                count("fault_" + f["k"])
                count("fault_raised" if raised else "fault_survived")
            notes.append(core.hashlib.sha256(repr((what, f["k"], int(f["at"] * 10), raised, s.calcs, st["pre"])).encode()).hexdigest()[:12])
            if not world.same(before, s.memory(), 0):
                return bad("export-changed-results", f"{what} failing with {f} changed the results")
            if raised is None and exportable(what):
                err = s.verify(what, out, st["t"], t1, None)
                if err:
                    return bad("unreported", f"{what} hit by {f} did not raise, but {err}")
            # and once more without the fault
            lib.sim_clock(1, (st["t"] + 60) * 10 ** 9, st["step"])
            try:
                s.export(what, out)
            except Exception as e:
                lib.sim_clock(0, 0, 0)
                return bad("retry", f"{what} after a failed export raised {type(e).__name__}: {e}")
            t1 = lib.sim_clock_now() // 10 ** 9
            lib.sim_clock(0, 0, 0)
            err = None if exportable(what) is None else s.verify(what, out, st["t"] + 60, t1, None)
            if err:
                return bad("retry", f"{what} retried after {f}: {err}")
            if no_time(contents(out)) != clean:
                return bad("not-repeatable", f"{what} exported again gives another content")
    return {"bad": None, "cnt": cnt, "states": notes}


def run(ctx, plan):
    r = ctx.child_ok(history, ctx.fresh_dir(), plan)
    for k, v in r["cnt"].items():
        ctx.count(k, v)
        if k.startswith("verified"):
            ctx.nontrivial = True
            ctx.count("sim_seconds", 60 * v)
    ctx.states += r["states"]
    if r["bad"]:
        raise Violation(*r["bad"])


def shrink(plan):
    for c in common.drop(plan["steps"]):
        yield common.with_key(plan, "steps", c)
    for i, st in enumerate(plan["steps"]):
        if st.get("fault"):
            q = [dict(x) for x in plan["steps"]]
            q[i].pop("fault")
            yield common.with_key(plan, "steps", q)
    sub = plan["sub"]
    if sub["op"] == "batch" and len(sub["pairs"]) > 1 and not sub.get("rois"):
        yield common.with_key(plan, "sub", {**sub, "pairs": sub["pairs"][:-1]})
    if len(sub.get("ms", [])) > 1:
        yield common.with_key(plan, "sub", {**sub, "ms": sub["ms"][:-1]})
    if "a" in sub:
        for c in common.simpler_op(sub):
            yield common.with_key(plan, "sub", c)
