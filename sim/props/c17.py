"""C17: interactive centre selectors save their own widget's values."""
import sys

import numpy as np

import c12
import common
import core
import env
import simsched
import world
from core import Violation

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 30000}
RULE = "a run is one notebook session: 1-4 metric objects, 1-5 selectors opened on them (2D, colour, 3D images), 8-40 user events (slider moves, radius, region type, thresholds, region calculation, save, reopening, scoring, showing the saved region) interleaved over them, some drawings failing or interrupted; non-trivial: at least two saves while two selectors were open; counted once per distinct plan"
STATE_MEASURE = "ordered pairs (event kind on one selector, next event kind, same selector / same metric / other metric, region types shown, fault)"
REAL = common.LIB + ["ipywidgets: sliders, dropdowns, buttons, interactive_output, their trait notifications"]
STUB = ["the browser and kernel: events arrive as widget state updates and button click messages, output goes to a recording shell",
        "Ctrl-C delivery and failing allocations while a callback runs"]
ASSUMPTIONS = ["widgets are identified by their labels and descriptions as displayed (X/Y/Z Coordinate (Signal/Background), Radius, Region Type, Lower/Upper Threshold, Iterations, the two buttons)",
               "the metric's parameters attribute is where a selection is saved"]
OWN = ("open", "score", "view")      # events on a metric object, not on a selector
REGIONS = ["cubic", "spherical", "full", "original"]


# ---------------------------------------------------------------- plans
def gen(rng, tier, i):
    g = world.Gen(rng, pool=3)
    nm = rng.choice([1, 2, 2, 2, 3, 3, 4])
    ms = [rng.choice(["SNR", "CNR"]) for _ in range(nm)]
    if nm > 1 and rng.random() < 0.5:
        ms[1] = ms[0]
    metrics = []
    for m in ms:
        init = {}
        if rng.random() < 0.2:
            init = {"signal_center": {"t": [12, 13]}, "radius": 3}
            if m == "CNR":
                init["background_center"] = {"t": [20, 9]}
        metrics.append({"m": m, "init": init})
    shapes = [[[30, 34], [40, 28], [33, 33]], [[16, 20, 18], [20, 14, 17]], [[30, 26, 3]]]
    events, sels = [], []

    def opened():
        k = rng.randrange(nm) if sels and rng.random() < 0.5 else min(len(sels), nm - 1)
        kind = 0 if metrics[k]["init"] or rng.random() < 0.6 else rng.choice([1, 1, 2])
        prev = [s for s in sels if s["k"] == k]
        if prev and rng.random() < 0.9:
            kind = prev[0]["kind"]        # remembered centres fit images of this kind
        sh = rng.choice(shapes[kind])
        kw = {}
        if rng.random() < 0.5:
            n = 2 if kind != 1 else 3
            kw = {"signal_center": {"t": [rng.randrange(5, 11) for _ in range(n)]}, "radius": rng.choice([1, 2, 3, 4])}
            if metrics[k]["m"] == "CNR":
                kw["background_center"] = {"t": [rng.randrange(5, 11) for _ in range(n)]}
            if rng.random() < 0.3:
                kw.pop(rng.choice(sorted(kw)))
        if metrics[k]["m"] == "SNR" and rng.random() < 0.4:
            kw["region_type"] = rng.choice(REGIONS)
        if metrics[k]["m"] == "SNR" and rng.random() < 0.3:
            kw.update({"iterations": rng.choice([1, 3]), "lower_threshold": rng.choice([50, 70])})
        img = {"k": "blob", "s": rng.randrange(3), "shape": sh, "dt": "u8"}
        sels.append({"k": k, "kind": kind})
        return ["open", k, img, kw]

    events.append(opened())
    for _ in range(rng.randrange(8, 40 if tier == "thorough" else 26)):
        x = rng.random()
        if (x < 0.12 or len(sels) < 2) and len(sels) < 5:
            events.append(opened())
            continue
        s = rng.randrange(len(sels))
        snr = metrics[sels[s]["k"]]["m"] == "SNR"
        if x < 0.42:
            e = ["move", s, rng.choice(["signal", "signal", "background"]) if not snr else "signal", rng.randrange(3), round(rng.random(), 3)]
        elif x < 0.54:
            e = ["radius", s, round(rng.random(), 3)]
        elif x < 0.62 and snr:
            e = ["region", s, rng.choice(REGIONS)]
        elif x < 0.68 and snr:
            e = ["setting", s, rng.choice(["Lower Threshold", "Upper Threshold", "Iterations"]), round(rng.random(), 3)]
        elif x < 0.74 and snr:
            e = ["calc", s]
        elif x < 0.8:
            e = ["score", rng.randrange(nm), rng.random() < 0.5] if rng.random() < 0.6 else ["view", rng.randrange(nm)]
        else:
            e = ["save", s]
        if rng.random() < 0.08 and e[0] not in OWN:
            e = e + [{"k": rng.choice(["int", "mem"]), "n": rng.randrange(40)}]
        events.append(e)
    return {"metrics": metrics, "events": events, "msg": rng.random() < 0.5}


def shrink(plan):
    ev = plan["events"]
    opens = [i for i, e in enumerate(ev) if e[0] == "open"]
    for c in common.drop([e for e in ev if e[0] != "open"]):
        left = [id(x) for x in c]
        yield {**plan, "events": [e for e in ev if e[0] == "open" or id(e) in left]}
    for n, i in reversed(list(enumerate(opens))):      # drop a selector with its events
        if len(opens) < 2:
            break
        out = []
        for j, e in enumerate(ev):
            if j == i or (e[0] not in OWN and e[1] == n):
                continue
            if e[0] not in OWN and e[1] > n:
                e = [e[0], e[1] - 1] + e[2:]
            out.append(e)
        yield {**plan, "events": out}
    for i, e in enumerate(ev):
        if isinstance(e[-1], dict) and "k" in e[-1] and e[0] != "open":
            yield {**plan, "events": ev[:i] + [e[:-1]] + ev[i + 1:]}
        if e[0] == "open" and e[3]:
            for key in e[3]:
                yield {**plan, "events": ev[:i] + [e[:3] + [{a: b for a, b in e[3].items() if a != key}]] + ev[i + 1:]}
    if plan["msg"]:
        yield {**plan, "msg": False}


# ---------------------------------------------------------------- the simulated notebook
class Shell:
    """What ipywidgets sees of the running kernel: errors in callbacks are shown, not raised."""
    kernel = None

    def __init__(self):
        self.errors = []

    def showtraceback(self, exc=None, **k):
        exc = exc or sys.exc_info()
        self.errors.append(exc[0].__name__)
        self.last = repr(exc[1])


class Selector:
    def __init__(self, metric, made):
        self.k = metric
        self.w = {}
        import ipywidgets as iw
        labels = {}
        for o in made:
            if isinstance(o, iw.Box) and len(o.children) == 2 and isinstance(o.children[0], iw.Label):
                labels[id(o.children[1])] = o.children[0].value
        for o in made:
            name = None
            if isinstance(o, iw.IntSlider):
                name = labels.get(id(o)) or o.description
            elif isinstance(o, iw.Dropdown):
                name = o.description
            elif isinstance(o, iw.Button):
                name = "calc" if "Calculate" in o.description else "save" if "Save" in o.description else o.description
            if name:
                self.w[name.rstrip(":")] = o
        if "save" not in self.w or "Radius" not in self.w:
            raise core.HarnessError(f"selector widgets not recognised: {sorted(self.w)}")

    def coord(self, which, axis):
        return self.w.get(f"{'XYZ'[axis]} Coordinate ({which.capitalize()})")

    def centre(self, which):
        return tuple(self.coord(which, a).value for a in range(3) if self.coord(which, a) is not None)

    def values(self):
        return {n: o.value for n, o in sorted(self.w.items()) if hasattr(o, "value")}


def digest(v, depth=0):
    """Content of an object, comparable across processes."""
    if depth > 6:
        return "..."
    if isinstance(v, np.ma.MaskedArray):
        return ["masked", digest(np.asarray(v.data)), digest(np.ma.getmaskarray(v))]
    if isinstance(v, np.ndarray):
        return ["array", list(v.shape), str(v.dtype), core.hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest()[:12]]
    if isinstance(v, dict):
        return {str(k): digest(x, depth + 1) for k, x in sorted(v.items(), key=lambda i: str(i[0]))}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [digest(x, depth + 1) for x in v]
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        return f"{v:.12g}"
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if hasattr(v, "__dict__"):
        return [type(v).__name__, digest(vars(v), depth + 1)]
    return repr(type(v))


def state(m):
    """Everything that can be read from a metric object, wherever it is stored."""
    d = {n: getattr(m, n, None) for n in dir(m) if not n.startswith("__") and n != "_abc_impl"}
    return [type(m).__name__, digest({n: v for n, v in d.items() if not callable(v)})]


def session(plan, only):
    """Play the events (only those of one metric if `only` is given); returns a log."""
    import builtins
    import warnings
    import ipywidgets as iw
    import ipywidgets.widgets.widget_output as wo
    import matplotlib.pyplot as plt
    warnings.simplefilter("ignore")
    builtins.__IPYTHON__ = True
    shell = Shell()
    wo.get_ipython = lambda: shell
    iw.widgets.widget.get_ipython = lambda: shell
    made = []
    iw.Widget.on_widget_constructed(lambda w: made.append(w))
    metrics = [getattr(env.viqa, m["m"])(**world.arg_values(m["init"])) for m in plan["metrics"]]
    env.simalloc.install()
    env.simalloc.configure(0, 1, -1, 0, 1 << 40)
    sels, imgs, log = [], {}, []

    def setv(w, v):
        if plan["msg"]:
            w.set_state({"value": v})
        else:
            w.value = v

    def click(b):
        if plan["msg"]:
            b._handle_button_msg(None, {"event": "click"}, [])
        else:
            b.click()

    for n, e in enumerate(plan["events"]):
        kind = e[0]
        k = e[1] if kind in OWN else (sels[e[1]].k if sels[e[1]] else owner(plan, e[1]))
        mine = only is None or k == only
        if not mine:
            if kind == "open":
                sels.append(None)
            continue
        m = metrics[k]
        fault = e[-1] if kind not in OWN and isinstance(e[-1], dict) else None
        rec = {"n": n, "k": k, "fired": 0}
        shell.errors.clear()
        del made[:]
        sel = sels[e[1]] if kind not in OWN else None
        act = None
        if kind == "open":
            img = world.make(e[2])
            kw = world.arg_values(e[3])
            imgs[k] = img
            act = lambda: m.set_centers(img, **kw)
        elif kind == "score":
            if k not in imgs:
                continue
            kw = {}
            if e[2]:
                nd = 3 if imgs[k].ndim == 3 and imgs[k].shape[-1] != 3 else 2
                kw = {"signal_center": (7,) * nd, "radius": 3}
                if plan["metrics"][k]["m"] == "CNR":
                    kw["background_center"] = (8,) * nd
            act = lambda: m.score(imgs[k], **kw)
        elif kind == "view":
            if k not in imgs:
                continue
            drawn = []
            act = lambda: view(plt, m, imgs[k], drawn)
        elif sel is None:
            continue                      # the selector could not be opened
        elif kind == "move":
            w = sel.coord(e[2], e[3])
            if w is None:
                continue
            act = lambda: setv(w, w.min + int(e[4] * (w.max - w.min + 1)))
        elif kind == "radius":
            w = sel.w["Radius"]
            act = lambda: setv(w, w.min + int(e[2] ** 2 * (w.max - w.min + 1)))
        elif kind == "region":
            act = lambda: setv(sel.w["Region Type"], e[2])
        elif kind == "setting":
            w = sel.w[e[2]]
            act = lambda: setv(w, w.min + int(e[3] * (w.max - w.min + 1)))
        elif kind in ("calc", "save"):
            act = lambda: click(sel.w[kind])
        shown = sel.values() if sel else None
        rec["region"] = sel.values().get("Region Type") if sel else None
        others = [state(x) for j, x in enumerate(metrics) if j != k]
        before = state(m)
        try:
            if fault is None:
                act()
            elif fault["k"] == "int":
                s = simsched.Sched("line", interrupt=fault["n"], max_steps=10 ** 7)
                try:
                    s.run_here(act)
                finally:
                    rec["fired"] = int(s.fired_interrupt)
            else:
                env.simalloc.configure(0, 1, fault["n"], 0, 64)
                try:
                    act()
                finally:
                    rec["fired"] = env.simalloc.stats()["failed"]
                    env.simalloc.configure(0, 1, -1, 0, 1 << 40)
            rec["out"] = "ok"
        except (Exception, KeyboardInterrupt) as x:
            rec["out"] = type(x).__name__
            rec["text"] = str(x)[:200]
        if kind == "open":
            if rec["out"] == "ok":
                sel = Selector(k, made)
                sels.append(sel)
            else:
                sels.append(None)
        elif kind == "calc" and rec["out"] == "ok" and not rec["fired"] and not shell.errors:
            sel.done = {x: sel.w[x].value for x in ("Iterations", "Lower Threshold", "Upper Threshold")}
        rec["errors"] = list(shell.errors)
        rec["last"] = getattr(shell, "last", "") if shell.errors else ""
        rec["moved"] = sel is not None and sel.values() != shown
        rec["values"] = sel.values() if sel else None
        rec["centres"] = {c: sel.centre(c) for c in ("signal", "background")} if sel else None
        rec["clamped"] = kind == "open" and sel is not None and any(getattr(w, "value", None) in (w.min, w.max) for w in sel.w.values() if hasattr(w, "min"))
        rec["done"] = getattr(sel, "done", None)
        rec["changed"] = state(m) != before
        rec["others"] = [state(x) for j, x in enumerate(metrics) if j != k] != others
        rec["state"] = state(m)
        rec["params"] = {a: (list(b) if isinstance(b, tuple) else b) for a, b in m.parameters.items() if a in
                         ("signal_center", "background_center", "radius", "region_type", "iterations", "lower_threshold", "upper_threshold", "auto_center")}
        if kind == "view":
            rec["drawn"] = drawn
            rec["nd"] = 3 if imgs[k].ndim == 3 and imgs[k].shape[-1] != 3 else 2
        plt.close("all")
        log.append(rec)
    return log


def view(plt, m, img, drawn):
    """Show the saved region; notes outlines, markers and titles of the panels shown."""
    real = plt.show

    def show(*a, **kw):
        c = c12.contents(plt.gcf())
        drawn.append([[x["patches"], x["lines"], x["title"], len(x["images"])] for x in c["axes"]])
    plt.show = show
    try:
        m.visualize_centers(img)
    finally:
        plt.show = real


def owner(plan, s):
    opens = [e for e in plan["events"] if e[0] == "open"]
    return opens[s][1]


# ---------------------------------------------------------------- judging
def wrong(plan, e, r):
    """What the saved parameters should be, from the selector's own widgets."""
    p, v, c = r["params"], r["values"], r["centres"]
    m = plan["metrics"][r["k"]]["m"]

    def differ(key, want):
        got = p.get(key)
        return None if got == want else f"{key} is {got}, the widgets show {want}"
    if m == "CNR":
        return differ("signal_center", list(c["signal"])) or differ("background_center", list(c["background"])) or differ("radius", v["Radius"])
    reg = v["Region Type"]
    bad = differ("region_type", reg)
    if bad:
        return bad
    if reg in ("cubic", "spherical"):
        return differ("signal_center", list(c["signal"])) or differ("radius", v["Radius"])
    if reg == "full" and r["done"]:
        for key, name in (("iterations", "Iterations"), ("lower_threshold", "Lower Threshold"), ("upper_threshold", "Upper Threshold")):
            if p.get(key) not in (r["done"][name], v[name]):
                return f"{key} is {p.get(key)}, the region was calculated with {r['done'][name]} (now shown: {v[name]})"
    return None


def wrong_view(plan, r):
    """A region shown without arguments must be the one the object remembers."""
    p, m = r["params"], plan["metrics"][r["k"]]["m"]
    names = ["background_center", "signal_center"] if m == "CNR" else ["signal_center"]
    rt = "cubic" if m == "CNR" else p.get("region_type")
    if rt in ("cubic", "spherical"):
        cs = [p.get(n) for n in names]
        if p.get("radius") is None or None in cs:
            return None if r["out"] == "ValueError" else f"nothing to show, yet {r['out']} {r['drawn']}"
        if any(len(c) != r["nd"] for c in cs):
            return None                       # saved for another kind of image
    elif rt is None:
        return None if r["out"] == "ValueError" else f"nothing to show, yet {r['out']} {r['drawn']}"
    else:
        cs = None
    if r["out"] != "ok":
        return None if rt == "full" and r["out"] == "ValueError" and "shape" in r["text"] else f"raised {r['out']}: {r['text']}"
    if len(r["drawn"]) != 1:
        return f"{len(r['drawn'])} figures shown"
    axes = r["drawn"][0]
    if len(axes) != (3 if r["nd"] == 3 else 1) * len(names):
        return f"{len(axes)} panels"
    if cs is None:
        return "an outline is drawn" if any(a[0] for a in axes) else None
    rad, want = p["radius"], []
    for c in cs:
        for q in ([(c[1], c[2]), (c[0], c[2]), (c[0], c[1])] if r["nd"] == 3 else [(c[0], c[1])]):
            want.append([["Rectangle" if rt == "cubic" else "Circle", [q[0] - rad, q[1] - rad, q[0] + rad, q[1] + rad]], q])
    for a, (patch, q) in zip(axes, want):
        if len(a[0]) != 1 or a[0][0][0] != patch[0] or not np.allclose(a[0][0][1], patch[1], atol=0.02):
            return f"outlines {a[0]} instead of {patch}"
        if r["nd"] == 3 and a[1] != sorted([["v", float(q[0])], ["h", float(q[1])]]):
            return f"marks {a[1]} instead of {q}"
    return None


def run(ctx, plan):
    log = ctx.child_ok(session, plan, None)
    saves, prev = 0, None
    nopen = 0
    doubt = set()           # selectors whose last callback was cut short by a fault
    for r in log:
        e = plan["events"][r["n"]]
        kind = e[0]
        ctx.count("event_" + kind)
        where = f"event {r['n']} {e[:5]}"
        m = plan["metrics"][r["k"]]["m"]
        if r["fired"]:
            ctx.count("fault_" + e[-1]["k"])
        if r["others"]:
            raise Violation("other-changed", f"{where} changed another metric object")
        if kind not in ("open", "score", "save") and r["changed"]:
            raise Violation("changed-without-save", f"{where} changed the {m} object without a save")
        if not r["fired"] and kind not in ("score", "view") and (r["out"] != "ok"):
            if kind != "open":
                raise Violation("event-failed", f"{where} raised {r['out']}: {r['text']}")
            if r["out"] != "ValueError" or not ("dimension" in r["text"] or "border" in r["text"]):
                raise Violation("cannot-open", f"{where} on {m} raised {r['out']}: {r['text']}")
            ctx.count("open_refused")
        if r["errors"] and not r["fired"] and kind != "calc":
            raise Violation("callback-failed", f"{where} on {m}: {r['errors'][0]} {r['last']}")
        if r["errors"] and not r["fired"]:
            ctx.count("no_region_found")
        if kind == "open" and r["out"] == "ok":
            nopen += 1
        if kind == "view":
            bad = wrong_view(plan, r)
            if bad:
                raise Violation("wrong-view", f"{where}: the {m} region shown is not the one saved ({ {a: r['params'].get(a) for a in ('region_type', 'signal_center', 'background_center', 'radius')} }): {bad}")
            ctx.count("views_checked")
        sid = e[1] if kind not in OWN else None
        if r["fired"]:
            doubt.add(sid)
        elif kind in ("move", "radius", "region"):
            if r["moved"]:           # a callback of this selector ran completely again
                doubt.discard(sid)
        if (kind == "save" and not r["fired"] and sid not in doubt) or (kind == "open" and r["out"] == "ok"):
            bad = wrong(plan, e, r)
            if bad and kind == "open" and r["clamped"]:
                bad = None        # a remembered centre outside this image, moved inside by the sliders
            if bad:
                raise Violation("wrong-save", f"{where} on {m}: {bad}")
            ctx.count("saves_checked")
            saves += nopen > 1 and kind == "save"
        ctx.states.append(core.hashlib.sha256(repr((prev and prev[0], kind, prev and (prev[1] == sid, prev[2] == r["k"]), m, r["region"], bool(r["fired"]))).encode()).hexdigest()[:12])
        prev = (kind, sid, r["k"])
    ctx.nontrivial = saves >= 2
    # what happened to one metric object and its selectors must not depend on the others
    ks = sorted({r["k"] for r in log})
    if len(ks) > 1:
        for k in ks:
            solo = ctx.child_ok(session, plan, k)
            mine = [r for r in log if r["k"] == k]
            ctx.count("solo_sessions")
            if [r["n"] for r in solo] != [r["n"] for r in mine]:
                raise Violation("interference", f"metric {k}: other events took place than without the other selectors")
            for a, b in zip(mine, solo):
                if a["fired"] != b["fired"]:
                    break
                for key in ("out", "values", "state", "errors"):
                    if not core.close(a[key], b[key], 1e-9):
                        raise Violation("interference", f"event {a['n']} {plan['events'][a['n']][:5]}: {key} of metric {k} is {str(a[key])[:300]}, without the other selectors {str(b[key])[:300]}")
