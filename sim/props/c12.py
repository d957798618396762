"""C12: exported pictures contain the drawing whatever the display does."""
import math
import os
import resource

import numpy as np

import common
import core
import env
import simsched
import world
from core import Violation

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 350, "thorough": 12000}
RULE = "a run is one process writing 2-5 pictures (image comparison, slice views, region views, multi-metric and batch reports) with user figures opened, selected and closed in between, a display that keeps, closes, edits or refuses each figure, failing or interrupted exports before; non-trivial: at least one picture was read back and compared pixel by pixel; counted once per distinct plan"
STATE_MEASURE = "(exporter, display behaviour, open figures, fault kind, outcome, outcome of the previous step, file existed before)"
REAL = common.LIB + ["matplotlib with its Agg renderer, PNG writer"]
STUB = ["the display: what plt.show does with the figures", "write errors and full disk", "Ctrl-C delivery"]
ASSUMPTIONS = ["the panels, region outlines, slice markers and score texts of a call are those the current drawing code lays out for its arguments; checked against a model on the figure that a fresh process saves, and pixel by pixel between that picture and the one under test"]
SHOW = ["keep", "close_all", "close", "raise", "other", "edit", "clear"]
FILLER = b"old picture " * 500


# ---------------------------------------------------------------- plans
def gen(rng, tier, i):
    g = world.Gen(rng, pool=4)
    steps = []
    for k in range(rng.randrange(2, 6)):
        x = rng.random()
        if x < 0.68:
            st = {"do": "pic", "op": g.picture()}
        elif x < 0.84:
            st = {"do": "multi", "op": g.multi()}
        else:
            st = {"do": "batch", "op": g.batch(3)}
            st["op"]["ms"] = [m for m in st["op"]["ms"] if m["m"] in ("RMSE", "PSNR", "SNR", "CNR", "UQI")][:3] or [{"m": "RMSE", "init": {"data_range": 255}, "kw": {}}]
        if st["do"] != "pic":
            st["ax"] = [rng.choice("xyz"), rng.randrange(5)]
            st["project"] = rng.random() < 0.4
        st["show"] = rng.choice(SHOW)
        st["ui"] = [rng.choice(["open", "open", "pick", "close", "draw"]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        st["pre"] = rng.random() < 0.3
        y = rng.random()
        if y < 0.1:
            st["fault"] = {"k": "io", "n": rng.randrange(6), "act": rng.choice([1, 1, 6]), "err": rng.choice([28, 5, 13, 30])}
        elif y < 0.2:
            st["fault"] = {"k": "full", "n": rng.choice([0, 10, 1000, 4096, 8192, 12000])}
        elif y < 0.28:
            st["fault"] = {"k": "int", "n": rng.randrange(120)}
        elif y < 0.36 and st["do"] == "pic":
            spoil(rng, st["op"])
        steps.append(st)
    return {"steps": steps, "figs": rng.choice([0, 0, 1, 2])}


def spoil(rng, op):
    op["spoiled"] = True
    kw = op["kw"]
    if op["fn"] == "export_image":
        w = rng.choice(["name", "axes", "kw", "roi"])
        if w == "name":
            op["name"] = "p.jpg"
        elif w == "axes":
            kw.update({"x": 1, "y": 1} if rng.random() < 0.5 else {"x": None, "y": None, "z": None})
        elif w == "kw":
            kw["nonsense"] = 1
        else:
            kw["roi"] = [{"t": [0, 999]}] * 3
    elif op["fn"] == "centers":
        w = rng.choice(["region_type", "radius", "signal_center"])
        kw[w] = {"region_type": "nonsense", "radius": -1, "signal_center": {"t": [0, 0]}}[w]
    elif "slices" in kw and kw["slices"] is not None:
        kw["slices"] = {"t": [1, 2]} if rng.random() < 0.5 else {"t": [999, 0, 0]}
    else:
        kw["nonsense"] = 1


def shrink(plan):
    st = plan["steps"]
    for k in range(len(st)):
        yield {**plan, "steps": st[:k] + st[k + 1:]}
    if plan["figs"]:
        yield {**plan, "figs": 0}
    for k, s in enumerate(st):
        for key, val in (("ui", []), ("show", "keep"), ("pre", False), ("project", False)):
            if key in s and s[key] != val:
                yield {**plan, "steps": st[:k] + [{**s, key: val}] + st[k + 1:]}
        if "fault" in s:
            yield {**plan, "steps": st[:k] + [{a: b for a, b in s.items() if a != "fault"}] + st[k + 1:]}
        op = s["op"]
        if s["do"] == "batch" and len(op["pairs"]) > 1:
            for j in range(len(op["pairs"])):
                q = {**op, "pairs": common.without(op["pairs"], j)}
                if op.get("rois"):
                    q["rois"] = common.without(op["rois"], j)
                yield {**plan, "steps": st[:k] + [{**s, "op": q}] + st[k + 1:]}
        if s["do"] != "pic" and len(op["ms"]) > 1:
            for j in range(len(op["ms"])):
                yield {**plan, "steps": st[:k] + [{**s, "op": {**op, "ms": common.without(op["ms"], j)}}] + st[k + 1:]}
        if s["do"] == "pic" and op.get("results"):
            for key in op["results"]:
                yield {**plan, "steps": st[:k] + [{**s, "op": {**op, "results": {a: b for a, b in op["results"].items() if a != key}}}] + st[k + 1:]}


# ---------------------------------------------------------------- in the simulated process
def prepare():
    import warnings
    warnings.simplefilter("ignore")
    import matplotlib
    import matplotlib.pyplot as plt
    matplotlib.rcParams["savefig.dpi"] = 40      # a user's setting, keeps reports small
    matplotlib.rcParams["figure.max_open_warning"] = 0
    return plt


def scribble(plt, n):
    fig = plt.figure(figsize=(2, 2))
    ax = fig.add_subplot(111)
    ax.imshow(np.arange(12).reshape(3, 4) * (n + 1))
    ax.set_title(f"mine {n}")
    return fig


def display(plt, mode, counter):
    """Make plt.show behave as the user's display does."""
    def show(*a, **k):
        counter[0] += 1
        if mode == "close_all":
            plt.close("all")
        elif mode == "close":
            plt.close(plt.gcf())
        elif mode == "raise":
            raise RuntimeError("no display")
        elif mode == "other":
            scribble(plt, 77)
        elif mode == "edit" and plt.get_fignums():
            plt.gcf().text(0.5, 0.5, "EDITED", fontsize=40)
        elif mode == "clear" and plt.get_fignums():
            plt.gcf().clear()
    plt.show = show
    plt._get_backend_mod().show = show


def pixels(p):
    from PIL import Image
    with Image.open(p) as im:
        im.load()
        a = np.asarray(im.convert("RGBA"))
    return [list(a.shape), core.hashlib.sha256(a.tobytes()).hexdigest()[:24]]


def history(d, plan):
    plt = prepare()
    w = world.World(d)
    for k in range(plan["figs"]):
        scribble(plt, k)
    log = []
    for k, st in enumerate(plan["steps"]):
        for j, u in enumerate(st["ui"]):
            nums = plt.get_fignums()
            if u == "open":
                scribble(plt, 10 * k + j)
            elif nums and u == "pick":
                plt.figure(nums[0])
            elif nums and u == "close":
                plt.close(nums[-1])
            elif nums:
                plt.gcf().text(0.1, 0.1, f"note {k}")
        shows = [0]
        out = os.path.join(d, "out")
        os.makedirs(out, exist_ok=True)
        e = {"i": k, "figs": len(plt.get_fignums()), "jobs": []}
        display(plt, "keep", shows)
        try:
            body = step_body(w, st, out, e)
        except Exception as x:     # the calculation before a report failed: nothing to export
            e["skipped"] = f"{type(x).__name__}: {x}"
            log.append(e)
            continue
        display(plt, st["show"], shows)
        for job in e["jobs"]:
            p = os.path.join(out, job["name"])
            if os.path.exists(p):
                os.unlink(p)
            if st["pre"]:
                with open(p, "wb") as f:
                    f.write(FILLER)
        f = st.get("fault")
        try:
            if f is None:
                body()
            elif f["k"] == "io":
                env.shim.start(out)
                env.shim.plan("any", f["n"], f["act"], 0, f["err"])
                try:
                    body()
                finally:
                    e["fired"] = env.shim.fired()
                    env.shim.stop()
                    env.shim.heal()
            elif f["k"] == "full":
                limited(body, f["n"])
            else:
                sch = simsched.Sched("line", interrupt=f["n"], max_steps=10 ** 7)
                e["fired"] = 0
                try:
                    sch.run_here(body)
                except KeyboardInterrupt:
                    e["fired"] = 1
                    raise
            e["ok"] = True
        except BaseException as x:
            e["ok"] = False
            e["err"] = type(x).__name__
            e["text"] = str(x)[:200]
            e["shown"] = shows[0]
        e["shows"] = shows[0]
        for job in e["jobs"]:
            p = os.path.join(out, job["name"])
            if not os.path.exists(p):
                job["got"] = None
                continue
            with open(p, "rb") as fh:
                if fh.read() == FILLER:
                    job["got"] = "old"
                    continue
            try:
                job["got"] = pixels(p)
            except Exception as x:
                job["got"] = f"unreadable: {type(x).__name__}"
        log.append(e)
    return log


def limited(body, nbytes):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, hard))
    try:
        return body()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def step_body(w, st, out, e):
    """The exporting call of a step; e["jobs"] lists the single pictures it stands for."""
    op = st["op"]
    if st["do"] == "pic":
        op = {**op, "out": "out", "over": True}
        name = op.get("name", "p.png")
        e["jobs"].append({"name": name, "op": op})
        body = w.op_picture(op)

        def run():
            import unittest.mock
            with unittest.mock.patch.object(world, "read_dir", lambda d: None):
                body()
        return run
    ax, sl = st["ax"]
    if st["do"] == "multi":
        three = is3d(op["a"]["i"])
        w.op_multi(op)()
        m = w.last_batch
        kw = {"dpi": 30, "image": True, "export_image": True, "csv": False, "metadata": False, "text": False}
        akw = {"dpi": 30}
        if three:
            kw[ax] = akw[ax] = sl
        if st["project"]:
            kw["project_name"] = "pp"
        a, b = w.image(op["a"]), w.image(op["b"])
        name = ("pp_" if st["project"] else "") + "image_comparison.png"
        e["jobs"].append({"name": name, "op": {"op": "picture", "fn": "export_image", "a": op["a"], "b": op["b"], "results": dict(m.results), "kw": akw}})
        return lambda: m.report(file_path=out, img_r=a, img_m=b, **kw)
    # a batch
    w.op_batch(op)()
    bm = w.last_batch
    three = is3d(op["files"][0]["i"])
    kw = {"csv": False, "metadata": False, "image": True}
    akw = {}
    if three:
        kw[ax] = akw[ax] = sl
    if st["project"]:
        kw["project_name"] = "pp"
    for k, (a, b) in enumerate(op["pairs"]):
        roi = op["kw"].get("roi") or (op["rois"][k] if op.get("rois") else None)
        q = {"op": "picture", "fn": "export_image", "a": op["files"][a], "b": op["files"][b], "results": dict(bm.results[str(k)]),
             "kw": {**akw, "dpi": 300, **({"roi": roi} if roi else {})}}
        e["jobs"].append({"name": ("pp_" if st["project"] else "") + f"image_comparison_{k}.png", "op": q})
    return lambda: bm.report(file_path=out, **kw)


def is3d(sp):
    sh = world.shape_of(sp)
    return len(sh) == 3 and sh[-1] != 3


# ---------------------------------------------------------------- the picture a call must give
def alone(d, op):
    """The same single call in a fresh process: pixels and the content of the figure it saved."""
    plt = prepare()
    display(plt, "keep", [0])
    import matplotlib.backend_bases as bb
    seen = []
    real = bb.FigureCanvasBase.print_figure

    def print_figure(self, filename, *a, **k):
        seen.append(contents(self.figure))
        return real(self, filename, *a, **k)
    bb.FigureCanvasBase.print_figure = print_figure
    w = world.World(d)
    op = {**op, "out": "out"}
    body = w.op_picture(op)
    try:
        body()
    except Exception as x:
        return {"err": type(x).__name__, "text": str(x)[:200]}
    p = os.path.join(d, "out", op.get("name", "p.png"))
    return {"px": pixels(p), "fig": seen[-1] if seen else None, "saves": len(seen)}


def contents(fig):
    axes = []
    for ax in fig.axes:
        ims = []
        for im in ax.images:
            a = np.asarray(np.ma.getdata(im.get_array()))
            if not ax.yaxis_inverted():
                a = a[::-1]
            if ax.xaxis_inverted():
                a = a[:, ::-1]
            ims.append([np.array(a), [float(x) for x in im.get_clim()]])
        pats = []
        for p in ax.patches:
            x = p.get_path().transformed(p.get_patch_transform()).get_extents()
            pats.append([type(p).__name__, [round(float(v), 4) for v in (x.x0, x.y0, x.x1, x.y1)]])
        lines = []
        for ln in ax.lines:
            xs, ys = (np.unique(np.asarray(v, float)) for v in ln.get_data())
            lines.append(["v", float(xs[0])] if len(xs) == 1 else ["h", float(ys[0])])
        axes.append({"images": ims, "patches": sorted(pats), "lines": sorted(lines), "title": ax.get_title(), "on": ax.axison})
    sup = fig.get_suptitle() if hasattr(fig, "get_suptitle") else (fig._suptitle.get_text() if fig._suptitle else "")
    texts = [t.get_text() for t in fig.texts if t.get_text() != sup]
    return {"axes": axes, "texts": texts}


def value_of(ref):
    f = ref["f"]
    if f.startswith("file:"):
        return world.loaded_as(f[5:], ref["i"])
    return world.make(ref["i"])


def model(op):
    """Panels the picture must show: [(shown pixels, outline, markers, slice title)], texts."""
    kw = world.arg_values(op["kw"])
    fn = op["fn"]
    a = np.asarray(value_of(op["a"]))
    if fn == "export_image":
        import skimage as ski
        b = np.asarray(value_of(op["b"]))
        if a.shape != b.shape:
            b = ski.transform.resize(b, a.shape, preserve_range=True, order=kw.get("scaling_order", 1)).astype(a.dtype)
        if kw.get("roi"):
            sl = tuple(slice(*r) for r in kw["roi"])[:a.ndim]
            a, b = a[sl], b[sl]
        out = []
        for v, t in ((a, "Reference image"), (b, "Modified image")):
            if v.ndim == 3 and v.shape[-1] == 3:
                v = ski.color.rgb2gray(v if v.dtype in (np.float32, np.float64) else v.astype(np.float64))
            if v.ndim == 2:
                v = v[:, ::-1]
            elif kw.get("x") is not None:
                v = np.rot90(v[kw["x"]][:, ::-1])
            elif kw.get("y") is not None:
                v = np.rot90(v[:, kw["y"]][:, ::-1])
            else:
                v = np.rot90(v[:, :, kw["z"]][::-1], -1)
            out.append({"img": v[::-1], "title": t})
        return out, [f"{k}: {v:.2f}" for k, v in op.get("results", {}).items()]

    def views(c, radius=None, rt=None):
        rows = []
        for ax, v, (p, q) in (("x", np.rot90(a[c[0]][:, ::-1]), (c[1], c[2])),
                              ("y", np.rot90(a[:, c[1]][:, ::-1]), (c[0], c[2])),
                              ("z", np.rot90(a[:, :, c[2]][::-1], -1), (c[0], c[1]))):
            e = {"img": v[::-1], "title": f"{ax}-axis, slice: {c['xyz'.index(ax)]}", "lines": sorted([["v", float(p)], ["h", float(q)]])}
            if rt:
                e["patch"] = [rt, [p - radius, q - radius, p + radius, q + radius]]
            rows.append(e)
        return rows
    if fn in ("visualize_2d", "visualize_3d", "image"):
        if a.ndim == 2:
            return [{"img": a[::-1]}], []
        return views(kw["slices"]), []
    rt = {"cubic": "Rectangle", "square": "Rectangle", "cube": "Rectangle"}.get(kw.get("region_type"), "Circle")
    if kw.get("region_type") is None:
        rt = None
    r = kw["radius"]
    cs = [kw["background_center"], kw["signal_center"]] if op["m"] == "CNR" else [kw["signal_center"]]
    if a.ndim == 3:
        out = []
        for c in cs:
            out += views(c, r, rt)
        return out, []
    out = []
    for k, c in enumerate(cs):
        flip = op["m"] == "SNR" or k == 1
        e = {"img": (a[:, ::-1] if flip else a)[::-1]}
        if rt:
            e["patch"] = [rt, [c[0] - r, c[1] - r, c[0] + r, c[1] + r]]
        out.append(e)
    return out, []


def judge_model(op, fig):
    want, texts = model(op)
    if len(fig["axes"]) != len(want):
        return f"{len(fig['axes'])} panels instead of {len(want)}"
    if sorted(fig["texts"]) != sorted(texts):
        return f"texts {fig['texts']} instead of {texts}"
    for k, (ax, m) in enumerate(zip(fig["axes"], want)):
        if len(ax["images"]) != 1:
            return f"panel {k} shows {len(ax['images'])} images"
        got, clim = ax["images"][0]
        img = np.asarray(m["img"])
        if got.shape != img.shape or not np.allclose(got.astype(float), img.astype(float), rtol=1e-12, atol=1e-9):
            return f"panel {k} does not show the image (or slice) given"
        if img.size and img.max() > img.min() and not np.allclose(clim, [img.min(), img.max()], rtol=1e-6):
            return f"panel {k} is scaled to {clim}, image to {[img.min(), img.max()]}"
        if "title" in m and ax["title"] != m["title"]:
            return f"panel {k} is titled {ax['title']!r}, it is {m['title']!r}"
        if "lines" in m and ax["lines"] != m["lines"]:
            return f"panel {k} marks {ax['lines']} instead of {m['lines']}"
        if "patch" in m:
            ok = len(ax["patches"]) == 1 and ax["patches"][0][0] == m["patch"][0] and np.allclose(ax["patches"][0][1], m["patch"][1], atol=0.02)
            if not ok:
                return f"panel {k} outlines {ax['patches']} instead of {m['patch']}"
    return None


# ---------------------------------------------------------------- judging
def expected(ctx, op):
    key = ("c12", repr(core.hashlib.sha256(repr(op).encode()).digest()))
    if key not in ctx.oracle_cache:
        v = ctx.child_ok(alone, ctx.fresh_dir(), op)
        if "fig" in v:
            v["model"] = judge_model(op, v["fig"]) if v["fig"] else "nothing was saved"
            del v["fig"]
        ctx.oracle_cache[key] = v
    return ctx.oracle_cache[key]


def run(ctx, plan):
    log = ctx.child_ok(history, ctx.fresh_dir(), plan)
    prev = None
    compared = 0
    for e in log:
        st = plan["steps"][e["i"]]
        fn = st["op"]["fn"] if st["do"] == "pic" else st["do"] + " report"
        if "skipped" in e:
            ctx.count("not_calculated")
            prev = "skipped"
            continue
        f = st.get("fault")
        hit = bool(f) and (f["k"] == "full" or bool(e.get("fired")))
        if f and hit:
            ctx.count("fault_" + f["k"])
        if e["shows"]:
            ctx.count("display_" + st["show"])
        where = f"{fn} (display {st['show']}, {e['figs']} figures open, fault {f})"
        wants = [expected(ctx, j["op"]) for j in e["jobs"]]
        for j, want in zip(e["jobs"], wants):
            if want.get("model"):
                raise Violation("wrong-drawing", f"{fn} alone in a fresh process: {want['model']}")
        bad = [w for w in wants if "err" in w]
        for j, want in zip(e["jobs"], wants):
            if "err" in want and not j["op"].get("spoiled") and not (j["op"].get("m") == "SNR" and not j["op"]["kw"].get("region_type")):
                raise Violation("no-picture", f"{fn} with valid arguments alone in a fresh process raised {want['err']}: {want['text']}")
        refused = st["show"] == "raise" and e["shows"] > 0
        if e["ok"]:
            if bad:
                raise Violation("not-refused", f"{where} succeeded, alone it raises {bad[0]['err']}: {bad[0]['text']}")
            if refused:
                raise Violation("display-error-hidden", f"{where} hid the error of the display")
        elif not bad and not refused and not hit:
            raise Violation("spurious-error", f"{where} raised {e['err']}: {e['text']}")
        if e["ok"] or (refused and not hit):
            for k, (j, want) in enumerate(zip(e["jobs"], wants)):
                if "err" in want:
                    continue
                got = j["got"]
                if not e["ok"] and got in (None, "old"):
                    raise Violation("not-written", f"{where}: the display failed and {j['name']} was not written")
                if got is None or isinstance(got, str):
                    raise Violation("not-written", f"{where} returned, picture {k} ({j['name']}) is {got or 'missing'}")
                if got != want["px"]:
                    raise Violation("wrong-picture", f"{where}: picture {k} ({j['name']}) of size {got[0][:2]} is not the drawing of this call (alone: size {want['px'][0][:2]})")
                compared += 1
                ctx.count("pictures")
        out = "ok" if e["ok"] else e["err"]
        ctx.states.append((fn, st["show"] if e["shows"] else "-", min(e["figs"], 3), f["k"] if hit else None, out, prev, st["pre"]))
        prev = out
    if compared:
        ctx.nontrivial = True
    return None
