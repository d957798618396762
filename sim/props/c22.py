"""C22: the statistics an image carries are its own, from one complete calculation."""
import copy
import math
import os
import pickle
import warnings

import numpy as np

import common
import core
import env
import world
from core import Violation

ID = "C22"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 200000}
RULE = "a run is one process holding up to 6 image arrays that are loaded, derived from each other (slices, views, copies, arithmetic, cropping, normalising, pickling), written to in place, have their statistics calculated (fault-hit or interrupted at a seeded position) and queried; non-trivial: statistics were queried after a calculation and another event; counted once per distinct plan"
STATE_MEASURE = "(how the image was made, statistics of the source known?, sequence of events on it, fault kind and position decile, statistics shown or not set)"
REAL = common.LIB
STUB = ["Ctrl-C delivery (raised at a chosen library source line)", "failing allocations (seam)"]
ASSUMPTIONS = ["statistics are a snapshot: writing to the array afterwards may leave them as they were, drop or refresh them",
               "an image derived from another one starts without statistics, or with statistics that are true for its own pixels"]
NAMES = {"mean": "mean_value", "median": "median", "variance": "variance", "standarddev": "standarddev", "skewness": "skewness",
         "kurtosis": "kurtosis", "minimum": "minimum", "maximum": "maximum"}
DERIVE = ["slice", "row", "step", "view", "copy", "copy2", "deepcopy", "mul", "add", "neg", "astype", "crop", "norm", "T", "ravel", "pickle", "clip", "again", "mask", "load", "sqrt_out", "where", "concat"]
EDIT = ["fill", "part", "iadd", "view", "out"]


def gen(rng, tier, i):
    g = world.Gen(rng, pool=3)
    n = 1
    ev = [["new", g.img(dts=("u8", "u16", "f32", "f64")), rng.choice(["image", "load", "file"])]]
    for _ in range(rng.randrange(5, 16 if tier == "quick" else 26)):
        x = rng.random()
        k = rng.randrange(n)
        if x < 0.06 and n < 6:
            ev.append(["new", g.img(dts=("u8", "u16", "f32", "f64")), rng.choice(["image", "load", "file"])])
            n += 1
        elif x < 0.3 and n < 6:
            ev.append(["derive", k, rng.choice(DERIVE), rng.randrange(100)])
            n += 1
        elif x < 0.42:
            ev.append(["edit", k, rng.choice(EDIT), rng.randrange(100)])
        elif x < 0.7:
            f = None
            if rng.random() < 0.45:
                f = {"k": rng.choice(["int", "int", "mem"]), "at": rng.random()}
            ev.append(["calc", k, f])
        else:
            ev.append(["ask", k])
    return {"events": ev}


class W(world.World):
    def op_calc(self, op):
        o = self.target
        return lambda: o.calculate_statistics()


def truth(img):
    from scipy.stats import kurtosis, skew
    a = np.asarray(img)
    return {"mean": np.mean(a), "median": np.median(a), "variance": np.var(a), "standarddev": np.std(a),
            "skewness": skew(a, axis=None), "kurtosis": kurtosis(a, axis=None), "minimum": np.min(a), "maximum": np.max(a),
            "pixels": np.array(a, copy=True)}


def near(x, y, kind):
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    tol = 2e-3 if kind == "f4" else 1e-6
    return x == y or abs(x - y) <= tol * max(abs(x), abs(y)) + tol * 1e-2


def shown(img):
    """What the image says: dictionary of numbers, None if nothing is set, or a description of the mixture."""
    vals = {n: getattr(img, a, "absent") for n, a in NAMES.items()}
    vals["histogram"] = getattr(img, "histogram", "absent")
    unset = [n for n, v in vals.items() if isinstance(v, str) or v is None]
    if len(unset) == len(vals):
        return None
    if unset:
        return f"statistics without {unset}"
    return vals


def agrees(vals, t):
    if t is None or isinstance(vals, str):
        return False
    kind = "f4" if t["pixels"].dtype.itemsize <= 4 and t["pixels"].dtype.kind == "f" else "f8"
    if not all(near(vals[n], t[n], kind) for n in NAMES):
        return False
    h, e = vals["histogram"]
    h, e = np.asarray(h), np.asarray(e)
    if not (len(e) == len(h) + 1 and h.sum() == t["pixels"].size):
        return False
    return bool(np.array_equal(np.histogram(t["pixels"], bins=e)[0], h)) or kind == "f4"   # rounding of edges in float32


def derive(img, how, s):
    if how == "slice":
        return img[1:]
    if how == "row":
        return img[s % img.shape[0]] if img.ndim > 1 else img[:2]
    if how == "step":
        return img[::2]
    if how == "view":
        return img.view()
    if how == "copy":
        return img.copy()
    if how == "copy2":
        return copy.copy(img)
    if how == "deepcopy":
        return copy.deepcopy(img)
    if how == "mul":
        return img * 2
    if how == "add":
        return img + img
    if how == "neg":
        return img.max() - img
    if how == "astype":
        return img.astype(np.float64)
    if how == "crop":
        if img.ndim not in (2, 3):
            return img[1:]
        return env.viqa.crop_image(img, *[(0, max(1, n - 1 - s % 2)) for n in img.shape])
    if how == "norm":
        return env.viqa.normalize_data(img, 255)
    if how == "T":
        return img.T
    if how == "ravel":
        return img.ravel()
    if how == "pickle":
        return pickle.loads(pickle.dumps(img))
    if how == "clip":
        return np.clip(img, 10, 100)
    if how == "again":
        return env.viqa.ImageArray(img)
    if how == "mask":
        return img[img >= np.asarray(img).mean()]
    if how == "load":
        return env.viqa.load_data(img)
    if how == "sqrt_out":
        return np.sqrt(img)
    if how == "where":
        return np.where(img > 50, img, 50).view(env.viqa.ImageArray)
    if how == "concat":
        return np.concatenate([img, img[:1]])
    raise ValueError(how)


def edit(img, how, s):
    if not img.flags.writeable:
        return
    if how == "fill":
        np.asarray(img)[...] = (np.arange(img.size).reshape(img.shape) * (s + 3)) % 200
    elif how == "part":
        img[: max(1, img.shape[0] // 2)] = s
    elif how == "iadd":
        img += 1
    elif how == "view":
        img.view(np.ndarray).flat[0] = s
    elif how == "out":
        np.add(img, 2, out=img)


def history(d, events):
    warnings.simplefilter("ignore")
    env.simalloc.install()
    env.simalloc.configure(0, 1, -1, 0, 1 << 40)
    w = W(d)
    pool, perm, hist, log = [], [], [], []
    for n, e in enumerate(events):
        kind = e[0]
        if kind == "new":
            ref = {"i": e[1], "f": "arr"}
            ex = world.file_exts(e[1])
            if e[2] == "file" and ex:
                ref["f"] = "file:" + ex[0]
            a = w.image(ref)
            img = env.viqa.ImageArray(np.array(a)) if e[2] == "image" else env.viqa.load_data(a)
            pool.append(img)
            perm.append([None])
            hist.append([e[2]])
            log.append([kind, None])
            continue
        if e[1] >= len(pool):
            continue
        img = pool[e[1]]
        if kind == "derive":
            try:
                out = derive(img, e[2], e[3])
            except Exception as x:
                log.append([kind, None])
                continue
            if not isinstance(out, env.viqa.ImageArray) or out.size < 2 or out.ndim < 1:
                log.append([kind, None])
                continue
            same = next((q for q, p in enumerate(pool) if p is out), None)
            pool.append(out)
            if same is not None:                       # the very same object again
                perm.append(perm[same])
                hist.append(hist[same])
            else:
                perm.append([None, truth(out)])
                hist.append(["derived", e[2], shown(img) is not None])
            log.append([kind, None])
        elif kind == "edit":
            edit(img, e[2], e[3])
            for q in range(len(pool)):
                if np.shares_memory(pool[q], img):
                    perm[q][:] = [*perm[q], None, truth(pool[q])]
            hist[e[1]].append(e[2])
            log.append([kind, None])
        elif kind == "calc":
            f = e[2]
            fired = 0
            if f:
                w.target = img.copy()
                f = dict(f)
                f["n"] = -1
                w.call_with({"op": "calc"}, f)
                f["n"] = int(f["at"] * (w.prof.get("lines") or w.prof.get("allocs") or 1))
            w.target = img
            got = w.call_with({"op": "calc"}, f)
            fired = w.fired if f else 0
            now = truth(img)
            if "ok" in got:
                perm[e[1]][:] = [now]
            elif not fired:
                return ["bad", f"event {n}: calculate_statistics raised {got}", log]
            elif f["k"] == "int":
                perm[e[1]].append(now)
            hist[e[1]].append(["calc", "ok" if "ok" in got else got["exc"], f and f["k"], f and int(f["at"] * 10)])
            log.append([kind, "fault_" + f["k"] if fired else None])
        if kind in ("ask", "calc"):
            vals = shown(img)
            try:
                said = img.describe()
            except Exception as x:
                return ["bad", f"event {n}: describe raised {type(x).__name__} {x}", log]
            ok = [p for p in perm[e[1]] if (p is None and vals is None) or (vals is not None and agrees(vals, p))]
            if not ok:
                want = [p if p is None else {k: float(v) for k, v in p.items() if k != "pixels"} for p in perm[e[1]]]
                return ["bad", f"event {n} ({kind}): image {e[1]} with history {hist[e[1]]} shows {vals if isinstance(vals, str) or vals is None else {k: float(vals[k]) for k in NAMES}} "
                        f"histogram {'set' if isinstance(vals, dict) else '-'}; possible are {want}", log]
            perm[e[1]][:] = ok
            for k, v in said.items():
                a = getattr(img, NAMES.get(k, k), None)
                if not (v is a or isinstance(v, str) and v == a or not isinstance(v, str) and not isinstance(a, str) and near(v, a, "f8")):
                    return ["bad", f"event {n}: describe gives {k} {v}, the attribute is {a}", log]
            log.append(["ask", None, core.hashlib.sha256(repr((hist[e[1]][-5:], vals is None)).encode()).hexdigest()[:12], vals is not None])
    return ["ok", None, log]


def run(ctx, plan):
    st, msg, log = ctx.child_ok(history, ctx.fresh_dir(), plan["events"])
    for r in log:
        ctx.count(r[0])
        if r[1]:
            ctx.count(r[1])
        if len(r) > 2:
            ctx.states.append(r[2])
            if r[3]:
                ctx.nontrivial = True
    if st == "bad":
        raise Violation("statistics", msg)


def shrink(plan):
    ev = plan["events"]
    for c in common.drop(ev):
        if c and c[0][0] == "new":
            yield {"events": c}
    # dropping the making of an image renumbers the later ones
    made = [i for i, e in enumerate(ev) if e[0] in ("new", "derive")]
    for num, i in reversed(list(enumerate(made))):
        if num == 0:
            continue
        out = []
        for j, e in enumerate(ev):
            if j == i or (e[0] != "new" and e[1] == num):
                continue
            if e[0] != "new" and e[1] > num:
                e = [e[0], e[1] - 1] + e[2:]
            out.append(e)
        yield {"events": out}
    for i, e in enumerate(ev):
        if e[0] == "calc" and e[2]:
            yield {"events": ev[:i] + [["calc", e[1], None]] + ev[i + 1:]}
