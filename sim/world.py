"""The workload universe: image specifications, input forms, library calls and their outcomes.

A call is a JSON object; `World.call` performs it against the real library and returns its
outcome in plain Python.  The same call performed in a pristine forked process is the oracle
of most properties (`fresh_outcome`)."""
import contextlib
import csv
import gzip
import json
import os
import warnings

import numpy as np

import core
import env

DT = {"u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "i16": np.int16, "f16": np.float16, "f32": np.float32, "f64": np.float64}
TOP = {"u8": 255, "u16": 65535, "u32": 100000, "i16": 20000, "f16": 1000.0}
TORCH = {"MSSSIM", "FSIM", "VSI", "VIFp"}


# ---------------------------------------------------------------- images
def top_of(spec):
    return spec.get("top") or TOP.get(spec["dt"], 255)


def make(spec):
    """A fresh array holding the specified image (always the same values)."""
    if spec["k"] == "dist":
        base = make(spec["of"])
        top = top_of(spec["of"])
        rng = np.random.RandomState(spec["s"])
        amp = spec.get("amp", 0.1) * top
        if spec.get("per"):          # a visible checkerboard rather than noise
            g = np.indices(base.shape[:2]) // spec["per"]
            pat = ((g[0] + g[1]) % 2 - 0.5).reshape(base.shape[:2] + (1,) * (base.ndim - 2))
            out = base.astype(np.float64) + amp * pat * rng.uniform(0.6, 1.0, base.shape)
        else:
            out = base.astype(np.float64) + rng.uniform(-1, 1, base.shape) * amp
        return np.clip(out, -spec["of"].get("low", 0) * top, top).astype(base.dtype)
    rng = np.random.RandomState(spec["s"])
    shape = tuple(spec["shape"])
    top = top_of(spec)
    if spec["k"] == "noise":
        a = rng.uniform(0, 1, shape)
    elif spec["k"] == "smooth":
        grids = np.meshgrid(*[np.linspace(0, 1, n) for n in shape], indexing="ij")
        a = 0.5 + 0.0 * grids[0]
        for g in grids:
            a = a + 0.2 * np.sin(2 * np.pi * (g * rng.uniform(1, 2.5) + rng.uniform()))
        a = (a - a.min()) / (a.max() - a.min() + 1e-9) * 0.8 + 0.1
    elif spec["k"] == "flat":
        g = np.indices(shape)
        a = 0.5 + 0.05 * np.sin(g[0] / 4.0 + rng.uniform(0, 6)) + 0.02 * rng.uniform(0, 1, shape)
    elif spec["k"] == "blob":
        a = rng.uniform(0.1, 0.3, shape)
        spatial = shape[:2] if (len(shape) == 3 and shape[-1] == 3) else shape
        sl = tuple(slice(int(n * 0.25), int(n * 0.25) + max(4, n // 2)) for n in spatial)
        a[sl] = rng.uniform(0.7, 1.0, a[sl].shape)
    elif spec["k"] == "const":
        a = np.full(shape, 0.5)
    elif spec["k"] == "ramp":
        a = np.arange(np.prod(shape)).reshape(shape) / max(1, np.prod(shape) - 1)
        a = (a * 7.31 + rng.uniform()) % 1.0
    else:
        raise ValueError(spec)
    return np.ascontiguousarray(((a - spec.get("low", 0)) * top).astype(DT[spec["dt"]]))


def shape_of(spec):
    return list(shape_of(spec["of"])) if spec["k"] == "dist" else list(spec["shape"])


def dt_of(spec):
    return dt_of(spec["of"]) if spec["k"] == "dist" else spec["dt"]


# ---------------------------------------------------------------- files
MHD = {"u8": "MET_UCHAR", "u16": "MET_USHORT", "u32": "MET_UINT", "f32": "MET_FLOAT", "f64": "MET_DOUBLE"}
RAWB = {"u8": "8ubit", "u16": "16ubit", "u32": "32ubit", "f16": "16fbit", "f32": "32fbit", "f64": "64fbit"}


def raw_bytes(arr):
    """img[x, y, z] is the voxel at x + y*X + z*X*Y of the file."""
    return arr.tobytes(order="F")


MHD_MORE = ("BinaryData = True\nCompressedData = False\nTransformMatrix = 1 0 0 0 1 0 0 0 1\nOffset = 0 0 0\n"
            "CenterOfRotation = 0 0 0\nAnatomicalOrientation = RAI\nElementSpacing = 0.0525 0.0525 0.0525\n"
            "Comment = written by the reconstruction software of the scanner, see its protocol\n")
NAMES = {"MSSSIM": "MS-SSIM", "QMeasure": "Q-Measure"}


def metric_name(m):
    return getattr(m, "_name", None) or NAMES.get(type(m).__name__, type(m).__name__)


def file_blobs(stem, ext, spec):
    """{file name: bytes} for storing the image in the given format; first entry is the one to load."""
    arr = make(spec)
    dt = dt_of(spec)
    if ext == "raw":
        x, y, z = arr.shape
        return {f"{stem}_{x}x{y}x{z}_{RAWB[dt]}.raw": raw_bytes(arr)}
    if ext == "mhd":
        x, y, z = arr.shape
        more = "" if spec.get("s", 0) % 3 else MHD_MORE
        head = (f"ObjectType = Image\nNDims = 3\n{more}DimSize = {x} {y} {z}\nElementType = {MHD[dt]}\n"
                f"ElementDataFile = {stem}.bin\n")
        return {f"{stem}.mhd": head.encode(), f"{stem}.bin": raw_bytes(arr)}
    if ext in ("nii", "nii.gz"):
        import nibabel as nib
        img = nib.Nifti1Image(arr, np.eye(4))
        img.header.set_data_dtype(arr.dtype)
        data = img.to_bytes()
        if ext == "nii.gz":
            data = gzip.compress(data, mtime=0)
        return {f"{stem}.{ext}": data}
    import io
    from PIL import Image
    if ext == "tiff" and (arr.ndim == 3 and arr.shape[-1] != 3 or dt != "u8"):
        import tifffile
        b = io.BytesIO()
        tifffile.imwrite(b, arr, photometric="minisblack", datetime=False)
        return {f"{stem}.tiff": b.getvalue()}
    b = io.BytesIO()
    Image.fromarray(arr).save(b, format={"png": "PNG", "bmp": "BMP", "tiff": "TIFF"}[ext])
    return {f"{stem}.{ext}": b.getvalue()}


def loaded_as(ext, spec):
    """What load_data must return for a file of this format."""
    a = make(spec)
    return a.astype(np.float64) if ext in ("nii", "nii.gz") else a


def put_files(d, blobs):
    for name, data in blobs.items():
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
    return os.path.join(d, next(iter(blobs)))


def file_exts(spec):
    sh, dt = shape_of(spec), dt_of(spec)
    out = []
    if len(sh) == 3 and sh[-1] != 3:
        if dt != "f16":
            out += ["mhd"] if dt in MHD else []
            out += ["nii", "nii.gz"]
        out += ["raw"] if dt in RAWB else []
    elif len(sh) == 2:
        if dt != "f16":
            out += ["nii"]
        if dt == "u8":
            out += ["png", "bmp", "tiff"]
        if dt in ("u16", "f32"):
            out += ["tiff"]
    elif len(sh) == 3 and dt == "u8":
        out += ["png", "bmp", "tiff"]
    return out


MEM_FORMS = ["arr", "arr", "fort", "strided", "neg", "ro", "image", "tensor"]


# ---------------------------------------------------------------- outcomes
def plain(v):
    import torch
    if isinstance(v, torch.Tensor):
        v = v.detach().cpu().numpy()
        return float(v) if v.ndim == 0 else np.array(v)
    if isinstance(v, np.ma.MaskedArray):
        if v.ndim == 0 or v is np.ma.masked:
            return "masked"
        return {"data": np.array(v.data), "mask": np.array(np.ma.getmaskarray(v))}
    if isinstance(v, np.ndarray):
        return float(v) if v.ndim == 0 and v.dtype.kind in "fiu" else np.array(v)
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return repr(type(v))


def exc_name(e):
    return type(e).__name__


def describe(o):
    s = repr(o)
    return s if len(s) < 400 else s[:400] + "..."


def rtol_of(op):
    ms = {op.get("m")} | {m["m"] for m in op.get("ms", [])}
    return 2e-5 if ms & TORCH else 1e-7


def same(a, b, rtol):
    return core.close(a, b, rtol)


# ---------------------------------------------------------------- the world
class World:
    """Objects, arrays and files of one simulated process."""

    def __init__(self, d, share=True):
        self.d = d
        self.objs = {}
        self.arrays = {}
        self.share = share
        self.files = {}
        self.calls = 0
        self.keep = []
        self.native_mod = None # another build of the native module
        self.bare = False
        self.watch = None      # called with every object handed to the library

    # inputs ---------------------------------------------------------------------
    def image(self, ref):
        """ref = {"i": spec, "f": form, ["v"]: variant}"""
        form = ref["f"]
        if form == "path":
            import pathlib
            return pathlib.Path(ref["path"]) if ref.get("pl") else ref["path"]
        if form == "missing":
            return os.path.join(self.d, "no_such_file_4x4x4_8ubit.raw")
        if form == "junk":
            return 42
        if form.startswith("file:"):
            ext = form[5:]
            blobs = file_blobs("img" + ref_key(ref), ext, ref["i"])
            p = os.path.join(self.d, next(iter(blobs)))
            if self.files.get(p) != ref["i"]:
                old = os.stat(p) if os.path.exists(p) else None
                put_files(self.d, blobs)
                self.files[p] = ref["i"]
                if old is not None:      # rewritten in place, time stamps unchanged
                    for name in blobs:
                        os.utime(os.path.join(self.d, name), ns=(old.st_atime_ns, old.st_mtime_ns))
            if ref.get("pl"):
                import pathlib
                return pathlib.Path(p)
            return p
        key = ref_key(ref)
        if self.share and key in self.arrays:
            a, spec = self.arrays[key]
            if spec != ref["i"]:         # same array, changed in place by its owner
                self.assign(a, make(ref["i"]))
                self.arrays[key] = (a, ref["i"])
            return a
        a = self._form(make(ref["i"]), form)
        if self.share:
            self.arrays[key] = (a, ref["i"])
        return a

    @staticmethod
    def assign(a, new):
        import torch
        if isinstance(a, torch.Tensor):
            a.copy_(torch.from_numpy(new))
        elif not a.flags.writeable:
            a.flags.writeable = True
            a[...] = new
            a.flags.writeable = False
        else:
            np.asarray(a)[...] = new

    def _form(self, a, form):
        if form == "arr":
            return a
        if form == "fort":
            return np.asfortranarray(a)
        if form == "strided":
            big = np.full([n * 2 + 1 for n in a.shape], 77).astype(a.dtype)
            v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
            v[...] = a
            self.keep.append(big)
            return v
        if form == "neg":
            b = np.ascontiguousarray(a[::-1])
            self.keep.append(b)
            return b[::-1]
        if form == "ro":
            a.flags.writeable = False
            return a
        if form == "image":
            return env.viqa.ImageArray(a)
        if form == "tensor":
            import torch
            return torch.from_numpy(a)
        raise ValueError(form)

    def args(self, kw):
        return arg_values(kw)

    def ready(self):
        """Called when the inputs of a call are prepared, right before the library is entered."""

    def given(self, *objs):
        if self.watch is not None:
            for o in objs:
                self.watch(o)

    def obj(self, op):
        """The metric object of the call: by name if shared, otherwise new."""
        key = op.get("obj")
        if key is not None and key in self.objs:
            return self.objs[key]
        init = self.args(op.get("init", {}))
        self.given(init)
        o = getattr(env.viqa, op["m"])(**init)
        if key is not None:
            self.objs[key] = o
        return o

    # calls ----------------------------------------------------------------------
    def call(self, op, wrap=None):
        """Perform the call; {"ok": value} or {"exc": type name}."""
        self.calls += 1
        run = getattr(self, "op_" + op["op"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                body = run(op)         # inputs are prepared, a thunk is returned
        # bare: the caller's own warning settings apply during the call
        with (contextlib.nullcontext() if self.bare else warnings.catch_warnings(action="ignore")):
            self.ready()
            try:
                v = body() if wrap is None else wrap(body)
                return {"ok": plain(v)}
            except (Exception, KeyboardInterrupt) as e:
                import traceback
                self.last_tb = traceback.format_exc()
                return {"exc": exc_name(e)}

    # one fault inside a call ------------------------------------------------------
    def call_with(self, op, fault):
        """Perform the call with one fault planted inside it; sets self.fired."""
        import simsched
        self.fired = 0
        self.prof = {}
        if fault is None:
            return self.call(op)
        k, n = fault["k"], fault.get("n", -1)

        def wrap(body):
            if k == "int":
                s = simsched.Sched("line", interrupt=n, max_steps=10 ** 7, record=n < 0)
                try:
                    return s.run_here(body)
                finally:
                    if n < 0:
                        self.prof["firsts"] = sorted(s.firsts.values())
                    self.fired = int(s.fired_interrupt)
                    self.prof["lines"] = s.step
                    self.site = sorted(s.sites)[0][0] if s.fired_interrupt and s.sites else None
            if k == "race":        # somebody else acts while the library is at line n
                def act(step):
                    if step == n:
                        self.fired = 1
                        self.race_action()
                s = simsched.Sched("line", observer=act, max_steps=10 ** 7)
                return s.run_here(body)
            if k == "mem":
                env.simalloc.configure(fault.get("mode", 0), 1, n, fault.get("sticky", 0), fault.get("min", 64))
                try:
                    return body()
                finally:
                    st = env.simalloc.stats()
                    self.fired = st["failed"]
                    self.prof["allocs"] = st["allocs"]
                    env.simalloc.configure(0, 1, -1, 0, 1 << 40)
            if k == "nat":
                env.shim.lib.simm_config(n, fault.get("sticky", 0), 0, 0)
                try:
                    return body()
                finally:
                    self.fired = env.shim.lib.simm_fired()
                    self.prof["nats"] = env.shim.lib.simm_count()
                    env.shim.lib.simm_config(-1, 0, 0, 0)
            if k == "io":
                env.shim.start(self.d)
                if n >= 0:
                    env.shim.plan("any", n, fault.get("act", env.Shim.ERR), fault.get("arg", 0), fault.get("err", 5))
                try:
                    return body()
                finally:
                    self.fired = env.shim.fired()
                    self.prof["ios"] = env.shim.count()
                    env.shim.stop()
                    env.shim.heal()
            raise ValueError(k)
        if k == "mem":
            env.simalloc.install()
        return self.call(op, wrap)

    def op_score(self, op):
        kw = self.args(op.get("kw", {}))
        a = self.image(op["a"])
        args = [a]
        if "b" in op:
            args.append(self.image(op["b"]))
        self.given(*args)
        self.given(kw)

        def body():
            o = self.obj(op)
            self.last_obj = o
            return o.score(*args, **kw)
        return body

    def op_load(self, op):
        a = self.image(op["a"])
        kw = self.args(op.get("kw", {}))
        self.given(a, kw)
        fn = op.get("fn")

        def body():
            if fn == "load_nifti":
                v = env.viqa.utils.load_nifti(a, **kw)
            elif fn:
                v = getattr(env.viqa.utils, fn)(os.path.dirname(a), os.path.basename(a), **kw)
            else:
                v = env.viqa.load_data(a, **kw)
            self.last_loaded = v
            return v
        return body

    def op_normalize(self, op):
        a = self.image(op["a"])
        kw = self.args(op["kw"])
        self.given(a, kw)
        return lambda: env.viqa.normalize_data(a, **kw)

    def op_crop(self, op):
        a = self.image(op["a"])
        roi = self.args(op["roi"])
        self.given(a, roi)
        return lambda: env.viqa.crop_image(a, *roi)

    def op_stats(self, op):
        a = self.image(op["a"])
        self.given(a)

        def body():
            i = env.viqa.load_data(a)
            i.calculate_statistics()
            return i.describe()
        return body

    def op_native(self, op):
        from viqa.fr_metrics.stat_utils import statisticscalc
        a = self.image(op["a"])
        self.given(a)
        f = getattr(self.native_mod or statisticscalc, op["fn"])
        return lambda: f(np.asarray(a), op["bs"], op["st"])

    def op_multi(self, op):
        a, b = self.image(op["a"]), self.image(op["b"])
        params = [self.args(m.get("kw", {})) for m in op["ms"]]
        kw = self.args(op.get("kw", {}))
        self.given(a, b, params, kw)

        def body():
            mm = self.objs.get(op.get("mobj"))
            if mm is None:
                mm = env.viqa.MultipleMetrics([self.obj(m) for m in op["ms"]], params)
                if "mobj" in op:
                    self.objs[op["mobj"]] = mm
            self.last_batch = mm
            res = self.last_returned = mm.calculate(a, b, **kw)
            return res
        return body

    # batches: files are placed in <d>/batch, named by index and format
    def batch_paths(self, op):
        """Write the files and the pair list of the batch; returns (dir, csv path)."""
        top = os.path.join(self.d, op.get("dir", "batch"))
        os.makedirs(top, exist_ok=True)
        names = []
        for k, ref in enumerate(op["files"]):
            ext = ref["f"][5:]
            where, bd = "", top
            if op.get("sub"):            # same file names in different folders
                where = f"scan{k}"
                bd = os.path.join(top, where)
                os.makedirs(bd, exist_ok=True)
            blobs = file_blobs(f"{op.get('stem', 'img')}{'' if op.get('sub') else k}", ext, ref["i"])
            name = os.path.join(where, next(iter(blobs)))
            p = os.path.join(top, name)
            if ref.get("gone"):
                if os.path.exists(p):
                    os.unlink(p)
                self.files.pop(p, None)
            elif self.files.get(p) != [ref["i"], ref.get("cut")]:
                old = os.stat(p) if os.path.exists(p) else None
                put_files(bd, blobs)
                if ref.get("cut"):       # the end of the file (data file) is lost
                    q = os.path.join(bd, list(blobs)[-1])
                    os.truncate(q, max(0, os.path.getsize(q) - ref["cut"]))
                self.files[p] = [ref["i"], ref.get("cut")]
                if old is not None:
                    for nm in blobs:
                        os.utime(os.path.join(bd, nm), ns=(old.st_atime_ns, old.st_mtime_ns))
            names.append(name)
        sep = op.get("sep", ",")
        pf = os.path.join(top, "pairs.csv")
        cols = op.get("cols", ["reference_image", "modified_image"])
        with open(pf, "w", newline="") as f:
            wr = csv.writer(f, delimiter=sep, lineterminator="\n")
            wr.writerow(cols)
            for j, (a, b) in enumerate(op["pairs"]):
                rec = {"reference_image": names[a], "modified_image": names[b]}
                wr.writerow([rec.get(c, f"{c}-{j}") for c in cols])
        self.bnames = [[names[a], names[b]] for a, b in op["pairs"]]
        return top, pf

    def batch_obj(self, op):
        key = op.get("obj")
        if key is not None and key in self.objs:
            return self.objs[key]
        params = [self.args(m.get("kw", {})) for m in op["ms"]]
        rois = self.args(op["rois"]) if op.get("rois") else None
        self.given(params, rois)
        bm = env.viqa.BatchMetrics(self.bdir, self.bcsv, [self.obj(m) for m in op["ms"]], params, rois=rois)
        if key is not None:
            self.objs[key] = bm
        return bm

    def op_batch(self, op):
        self.bdir, self.bcsv = self.batch_paths(op)
        kw = self.args(op.get("kw", {}))
        self.given(kw)

        def body():
            bm = self.last_batch = self.batch_obj(op)
            res = self.last_returned = bm.calculate(**kw)
            return res
        return body

    # exports: everything is written to <d>/<op["out"]>, the outcome is what the files contain
    def outdir(self, op):
        d = os.path.join(self.d, op.get("out", "out"))
        os.makedirs(d, exist_ok=True)
        if not op.get("over"):
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
        return d

    def op_export(self, op):
        """Calculate (batch or multi) and export the results; see op["ex"]."""
        d = self.outdir(op)
        calc = getattr(self, "op_" + op["of"]["op"])(op["of"])
        ex = op["ex"]
        kw = self.args(op.get("kw", {}))
        imgs = [self.image(op["of"][k]) for k in ("a", "b")] if op["of"]["op"] == "multi" else None
        self.given(kw)

        def body():
            calc()
            o = self.last_batch
            if ex == "results":
                o.export_results(d, op.get("name", "r.csv"))
            elif ex == "metadata":
                o.export_metadata(d, op.get("name", "m.txt"))
            elif ex == "scores":
                env.viqa.export_results(o.metrics, d, op.get("name", "s.csv"))
            elif ex == "report":
                if imgs is not None and kw.get("image"):
                    o.report(file_path=d, img_r=imgs[0], img_m=imgs[1], **kw)
                else:
                    o.report(file_path=d, **kw)
            else:
                raise ValueError(ex)
            return read_dir(d)
        return body

    def op_picture(self, op):
        d = self.outdir(op)
        a = self.image(op["a"])
        kw = self.args(op.get("kw", {}))
        res = self.args(op.get("results", {}))
        b = self.image(op["b"]) if "b" in op else None
        self.given(a, kw, res)
        if b is not None:
            self.given(b)
        fn, name = op["fn"], op.get("name", "p.png")
        p = os.path.join(d, name)

        def body():
            v = env.viqa
            if fn == "export_image":
                v.export_image(res, a, b, file_path=d, file_name=name, **kw)
            elif fn == "visualize_2d":
                v.utils.visualize_2d(a, export_path=p, **kw)
            elif fn == "visualize_3d":
                v.utils.visualize_3d(a, export_path=p, **kw)
            elif fn == "image":
                v.load_data(a).visualize(export_path=p, **kw)
            elif fn == "centers":
                self.obj(op).visualize_centers(a, export_path=p, **kw)
            else:
                raise ValueError(fn)
            return read_dir(d)
        return body

    def op_describe(self, op):
        d = self.outdir(op)
        a = self.image(op["a"])
        self.given(a)

        def body():
            env.viqa.load_data(a).describe(d, op.get("name", "d.csv"))
            return read_dir(d)
        return body

    def op_util(self, op):
        from viqa.utils import misc
        a = self.image(op["a"])
        self.given(a)
        kw = self.args(op.get("kw", {}))
        self.given(kw)
        fn = op["fn"]
        if fn == "fuse":
            import viqa
            ms = [viqa.RMSE(data_range=255) for _ in kw["vals"]]
            for m, v in zip(ms, kw["vals"]):
                m.score_val = v
            self.given(ms)
            return lambda: viqa.fuse_metrics_linear_combination(ms, kw["weights"])
        if not hasattr(misc, "_get_binary" if fn == "auto_region" else fn):
            return lambda: None           # a helper that is no longer there
        if fn == "auto_region":
            def body():
                bi = misc._get_binary(np.asarray(a), 60, 100)
                return misc.find_largest_region(bi, **kw)
            return body
        f = getattr(misc, fn)
        return lambda: f(np.asarray(a), **kw)


def read_dir(d):
    """Contents of exported files: text without the time line, pictures as a checksum of pixels."""
    import zlib
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if n.endswith(".png"):
            from PIL import Image
            with Image.open(p) as im:
                px = np.asarray(im)
            out[n] = [list(px.shape), zlib.crc32(px.tobytes()), float(px.std())]
        else:
            with open(p, newline="") as f:
                out[n] = [ln for ln in f.read().splitlines() if not ln.startswith("Time:")]
    return out


def ref_key(ref):
    """Identity of the array or file: by content, or by slot if its owner rewrites it in place."""
    i = ref.get("i")
    ident = [ref["slot"], shape_of(i), dt_of(i)] if "slot" in ref else i
    return core.hashlib.sha256(json.dumps([ident, ref["f"]], sort_keys=True).encode()).hexdigest()[:12]


def arg_values(kw):
    """JSON argument values to what callers pass: {"t": [...]} tuple, {"a": [...]} array."""
    if isinstance(kw, dict):
        if set(kw) == {"t"}:
            return tuple(arg_values(x) for x in kw["t"])
        if set(kw) == {"a"}:
            return np.array(kw["a"], dtype=np.float64)
        return {k: arg_values(v) for k, v in kw.items()}
    if isinstance(kw, list):
        return [arg_values(v) for v in kw]
    return kw


def T(*v):
    return {"t": list(v)}


# ---------------------------------------------------------------- fresh-process oracle
def _fresh(d, op):
    os.makedirs(d, exist_ok=True)
    w = World(d)
    out = w.call(op)
    o = getattr(w, "last_obj", None)
    sv = plain(o.score_val) if o is not None else None
    return [out, sv]


def strip(op):
    op = {k: v for k, v in op.items() if k not in ("obj", "th", "fault")}
    if "ms" in op:
        op["ms"] = [{k: v for k, v in m.items() if k != "obj"} for m in op["ms"]]
    return op


def fresh_outcome(ctx, op):
    """[outcome, stored score] of the single call in a pristine process (cached by content)."""
    op = strip(op)
    key = json.dumps(op, sort_keys=True)
    if key not in ctx.oracle_cache:
        d = os.path.join(ctx.base, f"o{ctx.wid}")
        ctx.oracle_cache[key] = ctx.child_ok(_fresh, d, op)
        if len(ctx.oracle_cache) > 4000:
            ctx.oracle_cache.pop(next(iter(ctx.oracle_cache)))
    return ctx.oracle_cache[key]


def _profile(d, op):
    os.makedirs(d, exist_ok=True)
    w = World(d)
    out = {}
    for k in ("mem", "nat", "io", "int"):
        w.objs.clear()
        w.call_with(op, {"k": k, "n": -1})
        out.update(w.prof)
    return out


def profile(ctx, op):
    """How many lines, allocations and I/O operations the call performs in a fresh process."""
    op = strip(op)
    key = "prof" + json.dumps(op, sort_keys=True)
    if key not in ctx.oracle_cache:
        d = os.path.join(ctx.base, f"o{ctx.wid}")
        ctx.oracle_cache[key] = ctx.child_ok(_profile, d, op)
    return ctx.oracle_cache[key]


FKEY = {"int": "lines", "race": "lines", "mem": "allocs", "nat": "nats", "io": "ios"}


def place(ctx, op, fault):
    """Turn a fault with a relative position into an absolute one for this call; None if the
    call has no such operation."""
    if fault is None:
        return None
    total = profile(ctx, op).get(FKEY[fault["k"]], 0)
    if total <= 0:
        return None
    if fault.get("site"):      # every source line equally likely, however often it runs
        firsts = profile(ctx, op)["firsts"]
        return {**fault, "n": firsts[min(len(firsts) - 1, int(fault["at"] * len(firsts)))]}
    return {**fault, "n": min(total - 1, int(fault["at"] * total))}


def gen_fault(rng, kinds=("int", "mem", "io", "nat")):
    f = {"k": rng.choice(kinds), "at": round(rng.random(), 4)}
    if f["k"] == "io":
        f["err"] = rng.choice([5, 13, 2, 24, 12])
    if f["k"] in ("int", "race") and rng.random() < 0.5:
        f["site"] = 1
    if f["k"] in ("mem", "nat") and rng.random() < 0.3:
        f["sticky"] = 1
    return f


# ---------------------------------------------------------------- generators
class Gen:
    """Seeded generator of calls.  A small pool of images makes collisions likely."""

    def __init__(self, rng, pool=3, files=True, forms=None, small=False, wide=0.0):
        self.rng = rng
        self.wide = wide       # share of floating point images with values outside the usual range; signed images
        self.pool = pool
        self.files = files
        self.forms = forms or MEM_FORMS
        self.small = small

    def spec(self, shape, dt, kind=None, top=None):
        r = self.rng
        s = {"k": kind or r.choice(["noise", "smooth", "blob"]), "s": r.randrange(self.pool), "shape": list(shape), "dt": dt}
        if top is not None and dt in ("f32", "f64"):
            s["top"] = top
        if dt == "i16":
            s["low"] = 0.25
        if dt in ("f32", "f64") and self.wide and r.random() < self.wide:
            if r.random() < 0.6:
                s["top"] = 400           # beyond every data range
            if r.random() < 0.6:
                s["low"] = 0.25          # negative values
        return s

    def dist(self, spec, amp=None):
        return {"k": "dist", "of": spec, "s": 50 + self.rng.randrange(self.pool), "amp": amp or self.rng.choice([0.05, 0.1, 0.3])}

    def ref(self, spec, allow_file=True):
        r = self.rng
        if allow_file and self.files and r.random() < 0.25:
            ex = file_exts(spec)
            if ex:
                return {"i": spec, "f": "file:" + r.choice(ex), **({"pl": 1} if r.random() < 0.2 else {})}
        f = r.choice(self.forms)
        if f == "tensor" and dt_of(spec) not in ("u8", "f32", "f64"):
            f = "arr"
        return {"i": spec, "f": f}

    def pair(self, spec, other=None):
        r = self.rng
        if other is None:
            x = r.random()
            other = spec if x < 0.05 else self.dist(spec) if x < 0.8 else {**spec, "s": (spec["s"] + 1)}
        a = self.ref(spec)
        b = self.ref(other)
        # both loaded with the same data type
        an, bn = "nii" in a["f"], "nii" in b["f"]
        if an != bn:
            b = {"i": other, "f": a["f"]}
        return a, b

    def data_range(self, dt, top=None):
        return {"u8": 255, "u16": 65535}.get(dt, top or 255)

    def base_init(self, spec, norm=True):
        r = self.rng
        init = {}
        dt = dt_of(spec)
        x = r.random()
        if norm and x < 0.25:
            init = {"data_range": r.choice([1, 255, 65535]), "normalize": True}
        else:
            init = {"data_range": top_of(spec) if spec["k"] != "dist" else top_of(spec["of"])}
            if dt == "f32" and init["data_range"] == 255 and r.random() < 0.3:
                init = {}
        return init

    def roi(self, shape, frac=0.8):
        r = self.rng
        out = []
        nd = 2 if (len(shape) == 3 and shape[-1] == 3) else len(shape)
        for n in shape[:nd]:
            k = max(1, int(n * frac))
            lo = r.randrange(0, n - k + 1)
            out.append(T(lo, lo + k if k < n else n - 1))
        return out

    SHAPES2 = [(24, 24), (24, 32), (32, 24), (28, 20)]
    SHAPES3 = [(12, 12, 12), (12, 14, 16), (16, 12, 13)]

    # one score call -----------------------------------------------------------
    METRICS = ["RMSE", "PSNR", "SSIM", "UQI", "GSM", "MAD", "MSSSIM", "FSIM", "VSI", "VIFp", "SNR", "CNR"]
    WEIGHTS = [6, 6, 8, 5, 9, 10, 4, 5, 3, 5, 9, 9]

    def score(self, m=None, invalid=0.12, obj=None):
        r = self.rng
        if m is None:
            m = r.choices(self.METRICS, self.WEIGHTS)[0]
        op = getattr(self, "g_" + m)()
        op = {"op": "score", "m": m, **op}
        if obj is not None:
            op["obj"] = obj
        if r.random() < invalid:
            self.spoil(op)
        return op

    def spoil(self, op):
        r = self.rng
        ways = ["missing", "junk", "kw", "init4d"]
        if "b" in op:
            ways += ["shape", "dtype", "missing_b"]
        if op["m"] in ("SNR", "CNR"):
            ways += ["nocenter", "floatcenter", "border"]
        if op["m"] == "MAD":
            ways += ["block", "weights", "overlap"]
        if op["m"] in ("SSIM", "UQI"):
            ways += ["win", "win_even"]
        if op["m"] == "SSIM":
            ways += ["k1"]
        if len(shape_of(op["a"]["i"])) == 3 and op["m"] in ("GSM", "MAD", "FSIM", "VIFp", "MSSSIM", "VSI"):
            ways += ["dim", "dim"]
        w = r.choice(ways)
        kw = op.setdefault("kw", {})
        if w == "missing":
            op["a"] = {"i": op["a"]["i"], "f": "missing"}
        elif w == "missing_b":
            op["b"] = {"i": op["b"]["i"], "f": "missing"}
        elif w == "junk":
            op["a"] = {"i": op["a"]["i"], "f": "junk"}
        elif w == "kw":
            kw["no_such_parameter"] = 1
        elif w == "init4d":
            sp = self.spec((4, 4, 4, 4), "u8", "noise")
            op["a"] = {"i": sp, "f": "arr"}
        elif w == "shape":
            sp = self.spec((18, 18), dt_of(op["a"]["i"]), "noise")
            op["b"] = {"i": sp, "f": "arr"}
        elif w == "dtype":
            sp = self.spec(shape_of(op["a"]["i"]), "f32" if dt_of(op["a"]["i"]) == "u8" else "u8", "noise")
            op["b"] = {"i": sp, "f": "arr"}
        elif w == "nocenter":
            for k in ("signal_center", "radius"):
                kw.pop(k, None)
        elif w == "floatcenter":
            kw["signal_center"] = T(*[5.5 for _ in shape_of(op["a"]["i"])])
        elif w == "border":
            kw["signal_center"] = T(*[1 for _ in shape_of(op["a"]["i"])])
            kw["radius"] = 3
        elif w == "block":
            kw["block_size"] = r.choice([0, 100])
        elif w == "weights":
            kw["weights"] = [1, 2]
        elif w == "overlap":
            kw["block_overlap"] = 1.5
        elif w == "win":
            kw["win_size"] = 99
        elif w == "win_even":
            kw["win_size"] = 4
        elif w == "k1":
            kw["K1"] = -1
        elif w == "dim":
            kw["dim"] = r.choice([7, None])

    def img(self, shapes2=None, three=0.3, dts=("u8", "u8", "u16", "f32", "f64"), kind=None):
        r = self.rng
        dt = r.choice(list(dts))
        if self.wide and r.random() < 0.05:
            dt = "i16"
        top = r.choice([1, 255]) if dt in ("f32", "f64") else None
        if r.random() < three:
            return self.spec(r.choice(self.SHAPES3), dt, kind, top)
        return self.spec(r.choice(shapes2 or self.SHAPES2), dt, kind, top)

    def maybe_roi(self, init, spec, p=0.15):
        if self.rng.random() < p:
            init["roi"] = self.roi(shape_of(spec), 0.85)

    def g_RMSE(self):
        r = self.rng
        if r.random() < 0.15:
            sp = self.spec((16, 20, 3), r.choice(["u8", "f64", "f32"]))
            a, b = self.pair(sp)
            return {"a": a, "b": b, "init": r.choice([{}, {"chromatic": True}])}
        sp = self.img()
        a, b = self.pair(sp)
        init = self.base_init(sp)
        self.maybe_roi(init, sp)
        return {"a": a, "b": b, "init": init}

    g_PSNR = g_RMSE

    def g_QMeasure(self):
        r = self.rng
        sp = self.spec(r.choice(self.SHAPES3 + [(5, 7, 3), (6, 9, 4)]), r.choice(["u8", "u16", "f32", "f32", "f64", "i16"]), top=r.choice([1, 255]))
        if sp["dt"] == "i16":
            sp["low"] = 0.25
        init = self.base_init(sp)
        if min(sp["shape"]) > 8:
            self.maybe_roi(init, sp)
        kw = {}
        if r.random() < 0.4:
            kw["hist_bins"] = r.choice([16, 32, 101])
        if r.random() < 0.3:
            kw["num_peaks"] = r.choice([1, 3, 5])
        return {"a": self.ref(sp), "init": init, "kw": kw}

    def g_SSIM(self):
        r = self.rng
        kw = {}
        if r.random() < 0.15:
            sp = self.spec((16, 20, 3), r.choice(["u8", "u8", "u8", "f32", "f64"]) if self.wide else "u8")
            a, b = self.pair(sp)
            if r.random() < 0.7:
                return {"a": a, "b": b, "init": {"chromatic": True},
                        "kw": {"color_weights": r.choice([{"a": [0.2, 0.5, 0.3]}, {"a": [0.33, 0.33, 0.34]}, {"a": [1, 2, 3]}])}}
            return {"a": a, "b": b, "init": {}}
        sp = self.img()
        a, b = self.pair(sp)
        init = self.base_init(sp)
        for k, vs in {"win_size": [5, 7, 9], "gaussian_weights": [False], "K1": [0.02], "K2": [0.05], "sigma": [1.0, 0.8],
                      "mode": ["constant", "nearest"], "cval": [3], "alpha": [2], "beta": [2, 1.7], "gamma": [2]}.items():
            if r.random() < 0.2:
                kw[k] = r.choice(vs)
        if r.random() < 0.1:      # not used for gray images
            kw["color_weights"] = {"a": [0.2, 0.5, 0.3]}
        return {"a": a, "b": b, "init": init, "kw": kw}

    def g_UQI(self):
        r = self.rng
        sp = self.img()
        a, b = self.pair(sp)
        kw = {"win_size": r.choice([5, 9])} if r.random() < 0.4 else {}
        return {"a": a, "b": b, "init": self.base_init(sp), "kw": kw}

    def dimkw(self, sp, full=0.4):
        r = self.rng
        sh = shape_of(sp)
        kw = {}
        if len(sh) == 3:
            d = r.randrange(3)
            kw["dim"] = d
            if r.random() > full:
                kw["im_slice"] = r.randrange(sh[d])
        return kw

    def g_GSM(self):
        r = self.rng
        sp = self.img(three=0.4)
        a, b = self.pair(sp)
        kw = self.dimkw(sp)
        if r.random() < 0.3:
            kw["c"] = r.choice([100, 300])
        if r.random() < 0.3:
            kw["p"] = r.choice([0.05, 0.3])
        if len(shape_of(sp)) == 3 and "im_slice" not in kw and r.random() < 0.5:
            kw["experimental"] = True
        return {"a": a, "b": b, "init": self.base_init(sp), "kw": kw}

    def g_MAD(self):
        r = self.rng
        kw = {}
        three = r.random() < 0.2
        if three:
            shape = r.choice([(24, 24, 4), (24, 28, 4)])
            dt = r.choice(["u8", "f64"])
            sp = self.spec(shape, dt, "flat", 255)
            kw = {"dim": 2}
            if r.random() < 0.5:
                kw["im_slice"] = r.randrange(4)
            kw["block_size"] = 8
        else:
            bs = r.choice([8, 8, 8, 16])
            shape = r.choice([(24, 24), (24, 32), (32, 24), (28, 20)]) if bs == 8 else r.choice([(48, 48), (40, 48)])
            dt = r.choice(["u8", "u8", "f64", "f32", "u16"])
            sp = self.spec(shape, dt, r.choice(["flat", "flat", "flat", "flat", "noise"]), 255)
            if bs != 16 or r.random() < 0.3:
                kw["block_size"] = bs
        d = self.dist(sp, r.choice([0.3, 0.6]))
        d["per"] = r.choice([6, 10])
        a, b = self.pair(sp, d)
        if r.random() < 0.15:
            kw["block_overlap"] = r.choice([0.75, 0.5, 0.8])
        if r.random() < 0.3:
            n = r.choice([2, 3, 5])
            kw["scales_num"] = n
            kw["weights"] = r.choice([[1.0] * n, [float(i + 1) for i in range(n)], {"a": [float(i + 2) for i in range(n)]}])
        if r.random() < 0.2:
            kw["orientations_num"] = r.choice([2, 3])
        if r.random() < 0.2:
            kw["account_monitor"] = True
            kw["display_function"] = {"disp_res": r.choice([30, 60]), "view_dis": r.choice([50, 70])}
        if r.random() < 0.15:
            kw["luminance_function"] = {"b": 0, "k": r.choice([0.03, 0.05]), "gamma": r.choice([2.2, 1.8])}
        if r.random() < 0.15:
            kw["csf_function"] = {"lambda_csf": r.choice([0.2, 0.114]), "f_peak": r.choice([5.0, 7.8909])}
        if r.random() < 0.15:
            kw["ms_scale"] = r.choice([2, 0.5])
        if r.random() < 0.15:
            kw["beta_1"] = 0.3
        if r.random() < 0.15:
            kw["thresh_1"], kw["thresh_2"] = 2.0, 3.0
        init = self.base_init(sp, norm=(dt != "u16"))
        if init.get("normalize"):
            init["data_range"] = r.choice([255, 255, 255, 1])
        return {"a": a, "b": b, "init": init, "kw": kw}

    def g_MSSSIM(self):
        r = self.rng
        dt = r.choice(["u8", "f32", "f64"])
        sp = self.spec(r.choice([(48, 48), (48, 52)]), dt, None, r.choice([1, 255]))
        a, b = self.pair(sp)
        w = r.choice([[0.3, 0.3, 0.4], [0.2, 0.3, 0.5], {"a": [0.25, 0.25, 0.5]}])
        if isinstance(w, dict):
            w = w["a"]
        kw = {"kernel_size": r.choice([3, 5]), "scale_weights": w}
        if r.random() < 0.3:
            kw["kernel_sigma"] = 1.0
        return {"a": a, "b": b, "init": self.base_init(sp), "kw": kw}

    def g_FSIM(self):
        r = self.rng
        if r.random() < 0.2:
            sp = self.spec((24, 20, 3), "u8")
            a, b = self.pair(sp)
            return {"a": a, "b": b, "init": {"chromatic": r.random() < 0.6}}
        dt = r.choice(["u8", "f32"])
        sp = self.spec(r.choice(self.SHAPES2), dt) if r.random() < 0.75 else self.spec((16, 18, 20), dt)
        a, b = self.pair(sp)
        kw = self.dimkw(sp, full=0.1)
        if r.random() < 0.3:
            kw["scales"] = 3
        if r.random() < 0.2:
            kw["orientations"] = 2
        if r.random() < 0.2:
            kw["min_length"] = 4
        return {"a": a, "b": b, "init": self.base_init(sp), "kw": kw}

    def g_VSI(self):
        r = self.rng
        sp = self.spec(r.choice([(32, 32), (32, 40)]), r.choice(["u8", "f32"]))
        a, b = self.pair(sp)
        kw = {"c1": 1.1} if r.random() < 0.2 else {}
        return {"a": a, "b": b, "init": self.base_init(sp), "kw": kw}

    def g_VIFp(self):
        r = self.rng
        sp = self.spec(r.choice([(44, 44), (44, 48)]), r.choice(["u8", "f32", "f64"]))
        a, b = self.pair(sp)
        kw = {"sigma_n_sq": 1.5} if r.random() < 0.3 else {}
        return {"a": a, "b": b, "init": self.base_init(sp), "kw": kw}

    def centre(self, sh, rad):
        return T(*[self.rng.randrange(rad, max(rad + 1, n - rad)) for n in sh])

    def g_SNR(self, cnr=False):
        r = self.rng
        kw = {}
        sh_rgb = (not cnr) and r.random() < 0.12
        if sh_rgb:
            sp = self.spec((20, 24, 3), r.choice(["u8", "f64"]), "blob")
            sh = (20, 24)
        else:
            sp = self.img(three=0.35, kind=r.choice(["blob", "blob", "blob", "noise", "noise", "noise", "flat", "const"]))
            sh = shape_of(sp)
        rad = r.choice([2, 3, 4])
        kw = {"signal_center": self.centre(sh, rad), "radius": rad}
        if cnr:
            kw["background_center"] = self.centre(sh, rad)
        reg = ["cubic", "spherical", "cube", "circle", "cubic", "spherical", "full", "original"]
        if sh_rgb:
            reg = ["full", "original", "spherical", "cubic"]
            if r.random() < 0.5:
                kw["yuv"] = r.random() < 0.5
        if r.random() < 0.6:
            kw["region_type"] = r.choice(reg)
        if r.random() < 0.25 and not sh_rgb:
            kw["auto_center"] = True
            kw["iterations"] = r.choice([1, 2])
            if not cnr and r.random() < 0.5:
                kw["lower_threshold"], kw["upper_threshold"] = r.choice([(60, 100), (80, 99)])
        init = self.base_init(sp)
        if not cnr and r.random() < 0.2:
            init["name"] = "MySNR"
        self.maybe_roi(init, sp, 0.1)
        if "roi" in init:
            kw = {k: v for k, v in kw.items() if k not in ("auto_center",)}
        return {"a": self.ref(sp), "init": init, "kw": kw}

    def g_CNR(self):
        return self.g_SNR(cnr=True)

    # other calls ---------------------------------------------------------------
    def load(self):
        r = self.rng
        sp = self.img(dts=("u8", "u16", "f32", "f64"))
        kw = {}
        if r.random() < 0.35:
            kw = {"data_range": r.choice([1, 255, 65535]), "normalize": True}
        if r.random() < 0.2:
            kw["roi"] = self.roi(shape_of(sp), 0.8)
        if r.random() < 0.05:
            kw["normalize"], _ = True, kw.pop("data_range", None)
        return {"op": "load", "a": self.ref(sp), "kw": kw}

    def normalize(self):
        r = self.rng
        sp = self.img()
        kw = {"data_range_output": T(0, r.choice([1, 255, 65535, 7]))}
        if r.random() < 0.2:
            kw["automatic_data_range"] = False
            kw["data_range_input"] = T(0, 300)
        return {"op": "normalize", "a": self.ref(sp, allow_file=False) if True else None, "kw": kw}

    def crop(self):
        sp = self.img()
        return {"op": "crop", "a": self.ref(sp, allow_file=False), "roi": self.roi(shape_of(sp), self.rng.choice([0.5, 0.8, 1.0]))}

    def stats(self):
        return {"op": "stats", "a": self.ref(self.img(dts=("u8", "f32", "f64")))}

    def native(self):
        r = self.rng
        sp = self.spec(r.choice([(16, 16), (12, 20), (20, 12), (17, 23), (9, 31), (8, 8)]), r.choice(["f64", "f64", "f32", "u8"]), None, 255)
        bs = r.choice([4, 8, 8, 5])
        return {"op": "native", "fn": r.choice(["minstd", "getstatistics"]),
                "a": self.ref(sp, allow_file=False), "bs": bs, "st": r.choice([max(1, bs // 4), 1, bs // 2, bs])}

    def util(self):
        r = self.rng
        fn = r.choice(["gabor_convolve", "correlate_convolve_abs", "auto_region", "_to_grayscale", "_rgb_to_yuv",
                       "_to_spherical", "_to_cubic", "fuse"])
        if fn == "gabor_convolve":
            sp = self.spec(r.choice(self.SHAPES2), r.choice(["u8", "f64"]))
            kw = {"scales_num": r.choice([2, 3]), "orientations_num": r.choice([2, 4])}
            if r.random() < 0.4:
                kw["min_wavelength"] = r.choice([3, 4])
            if r.random() < 0.4:
                kw["bandwidth_param"] = r.choice([0.55, 0.7])
        elif fn == "correlate_convolve_abs":
            sp = self.spec((9, 11), "u8")
            kw = {"kernel": {"a": [[1, 0, -1], [2, 0, -2], [1, 0, -1]]}, "border_mode": r.choice(["constant", "reflect", "nearest", "wrap"]),
                  "mode": r.choice(["correlate", "convolve"])}
        elif fn == "auto_region":
            sp = self.img(kind="blob")
            kw = {"iterations": r.choice([1, 2]), "region_type": r.choice(["cubic", "spherical", "full", "original"])}
        elif fn == "fuse":
            sp = self.spec((8, 8), "u8")
            n = r.choice([1, 2, 3])
            ws = [r.choice([1, 2, 0.5, 0.25, -1, 0]) for _ in range(n if r.random() < 0.85 else n + 1)]
            kw = {"vals": [round(r.random() * 50, 3) for _ in range(n)], "weights": r.choice([ws, {"a": ws}])}
        elif fn in ("_to_grayscale", "_rgb_to_yuv"):
            sp = self.spec((12, 14, 3), r.choice(["u8", "f64", "f32"]))
            kw = {}
        else:
            sp = self.img()
            sh = shape_of(sp)
            kw = {"center": self.centre(sh, 3), "radius": 3}
        return {"op": "util", "fn": fn, "a": self.ref(sp, allow_file=False), "kw": kw}

    def metric_list(self, sp, n=None, obj=None, names=None):
        """Metrics with parameters all usable on images like sp."""
        r = self.rng
        sh, dt = shape_of(sp), dt_of(sp)
        top = top_of(sp if sp["k"] != "dist" else sp["of"])
        given = names
        names = given or ["RMSE", "PSNR", "SSIM", "UQI", "SNR", "CNR", "GSM", "SNR", "CNR"]
        if len(sh) == 3 and sh[-1] == 3:
            sh = sh[:2]
        if len(sh) == 2 and not given:
            names += ["FSIM", "MAD"] if dt == "u8" else []
        out, used = [], set()
        for _ in range(n or r.randrange(1, 4)):
            m = r.choice(names)
            if m in used:
                continue
            used.add(m)
            e = {"m": m, "init": {"data_range": top}, "kw": {}}
            if m == "PSNR" and dt not in ("u8", "u16"):
                e["init"] = {"data_range": top}
            if m == "GSM" and len(sh) == 3:
                e["kw"] = {"dim": r.randrange(3)}
            if m == "MAD":
                e["kw"] = {"block_size": 8}
            if m == "SSIM" and r.random() < 0.5:
                e["kw"] = {"win_size": 5, "gaussian_weights": False}
            if m == "UQI":
                e["kw"] = {"win_size": 5}
            if m in ("SNR", "CNR"):
                k = min(min(sh) // 4, 3)
                e["kw"] = {"signal_center": self.centre([n // 2 for n in sh], k), "radius": k}
                if m == "CNR":
                    e["kw"]["background_center"] = self.centre([n // 2 for n in sh], k)
                if r.random() < 0.5:
                    e["kw"]["region_type"] = r.choice(["cubic", "spherical", "full"])
            if obj is not None:
                e["obj"] = f"{obj}{len(out)}"
            out.append(e)
        return out

    def multi(self):
        r = self.rng
        sp = self.img(three=0.3, dts=("u8", "f32"))
        a, b = self.pair(sp)
        kw = {}
        if r.random() < 0.3:
            kw["roi"] = self.roi(shape_of(sp), 0.85)
        return {"op": "multi", "ms": self.metric_list(sp), "a": a, "b": b, "kw": kw}

    def batch_files(self, nfiles, three=0.45, dts=("u8", "u8", "u16", "f32")):
        """Image files that can be compared with each other (some of another shape)."""
        r = self.rng
        dt = r.choice(list(dts))
        top = 255 if dt in ("f32", "f64") else None
        x = r.random()
        if x < three:
            shapes, exts = r.sample(self.SHAPES3, 2), ["raw", "mhd"] if r.random() < 0.6 else ["nii", "nii.gz"]
        elif x < 0.92 or dt != "u8":
            shapes = r.sample(self.SHAPES2, 2)
            exts = ["nii"] if dt not in ("u8",) or r.random() < 0.2 else ["png", "bmp", "tiff"]
        else:
            shapes, exts = [(24, 20, 3), (24, 20, 3)], ["png", "bmp"]
        other = r.random() < 0.4
        out = []
        for k in range(nfiles):
            sh = shapes[1] if other and r.random() < 0.35 else shapes[0]
            kind = r.choice(["noise", "smooth", "blob", "flat"])
            sp = {"k": kind, "s": r.randrange(100), "shape": list(sh), "dt": dt}
            if top:
                sp["top"] = top
            out.append({"i": sp, "f": "file:" + r.choice(exts)})
        return out

    def mixed_files(self, n):
        r = self.rng
        three = r.random() < 0.5
        a, b = r.sample(self.SHAPES3 if three else self.SHAPES2, 2)
        dts = r.sample(["u8", "u16", "f32"], 2) if three else r.sample(["u8", "f32"], 2)
        files = [{"i": {"k": r.choice(["noise", "smooth"]), "s": r.randrange(100), "shape": list(a if k < 2 else b),
                        "dt": dts[k] if k < 2 else r.choice(["u8", "f32"]), "top": 255}} for k in range(r.choice([3, 4]))]
        for f in files:
            f["f"] = "file:" + (r.choice(["raw", "raw", "mhd", "nii"]) if three else "png" if f["i"]["dt"] == "u8" else "nii")
        return files, [[r.randrange(2), r.randrange(2, len(files))] for _ in range(max(n, 2))]

    def pair_list(self, nfiles, n):
        """Pair sequences rich in repetition: same pair, same reference, same modified, swaps."""
        r = self.rng
        out = [[r.randrange(nfiles), r.randrange(nfiles)]]
        while len(out) < n:
            a, b = r.choice(out) if r.random() < 0.3 else out[-1]
            w = r.choice(["same", "ref", "ref", "mod", "mod", "swap", "new", "self", "shift"])
            if w == "same":
                p = [a, b]
            elif w == "ref":
                p = [a, r.randrange(nfiles)]
            elif w == "mod":
                p = [r.randrange(nfiles), b]
            elif w == "swap":
                p = [b, a]
            elif w == "self":
                p = [a, a]
            elif w == "shift":
                p = [b, r.randrange(nfiles)]
            else:
                p = [r.randrange(nfiles), r.randrange(nfiles)]
            out.append(p)
        return out

    def batch(self, maxpairs=7, long=0.0):
        r = self.rng
        nf = r.randrange(1, 5)
        files = self.batch_files(nf)
        n = r.randrange(1, maxpairs + 1)
        many = r.random() < long  # more than ten pairs, few cheap metrics
        if many:
            n = r.randrange(11, 16)
        pairs = self.pair_list(nf, n)
        mixed = r.random() < 0.12
        if mixed:   # references of one size but several data types, modified images of another size
            files, pairs = self.mixed_files(n)
        sp = files[0]["i"]
        small = [min(shape_of(f["i"])[k] for f in files) for k in range(len(shape_of(sp)))]
        msp = {**sp, "shape": small}
        ms = self.metric_list(msp, r.choice([1, 2, 2, 3, 3, 4]))
        if mixed and not any(m["m"] in ("SNR", "CNR") for m in ms):
            ms = self.metric_list(msp, 1, names=["SNR", "CNR"]) + ms[:1]
        if len(small) == 3 and small[-1] != 3 and r.random() < 0.2 and hasattr(env.viqa, "QMeasure"):
            ms.append({"m": "QMeasure", "init": {"data_range": top_of(sp)}, "kw": {"hist_bins": 16} if r.random() < 0.5 else {}})
        if many:
            ms = [m for m in ms if m["m"] in ("RMSE", "PSNR", "SNR", "CNR", "UQI", "SSIM")][:2] or [{"m": "RMSE", "init": {"data_range": 255}, "kw": {}}]
        op = {"op": "batch", "files": files, "pairs": pairs, "ms": ms, "kw": {}}
        rgb = len(small) == 3 and small[-1] == 3
        if r.random() < 0.4:
            pool = [self.roi(small, r.choice([0.75, 0.9])) for _ in range(2)]
            near = list(pool[0])   # differs from another one in a single axis or bound only
            ax = r.randrange(len(near))
            lo, hi = near[ax]["t"]
            near[ax] = T(lo, hi - 1) if r.random() < 0.5 or lo == 0 else T(lo - 1, hi)
            pool.append(near)
            if r.random() < 0.3:
                pool.append(None)
            op["rois"] = [r.choice(pool) for _ in pairs]
        if r.random() < 0.25:
            op["kw"]["roi"] = self.roi(small, 0.8)
        if r.random() < 0.25:
            op["kw"]["scaling_order"] = r.choice([0, 1, 2, 3])
        if r.random() < 0.2 and not rgb:
            op["kw"].update({"normalize": True, "data_range": r.choice([1, 255])})
        if r.random() < 0.15:
            op["sep"] = r.choice([";", "\t"])
        if r.random() < 0.3:
            op["sub"] = 1
        if r.random() < 0.15:
            op["cols"] = r.choice([["modified_image", "reference_image"], ["id", "reference_image", "modified_image"],
                                   ["reference_image", "modified_image", "note"], ["modified_image", "id", "reference_image", "note"]])
        return op

    def export(self, pictures=True, of=None):
        r = self.rng
        of = of or (self.multi() if r.random() < 0.5 else self.batch(3))
        op = {"op": "export", "of": of, "ex": r.choice(["results", "metadata", "scores", "report", "report"])}
        if op["ex"] == "report":
            kw = {"csv": r.random() < 0.8, "metadata": r.random() < 0.8}
            if r.random() < 0.3:
                kw["project_name"] = "proj"
            if of["op"] == "multi":
                kw["text"] = r.random() < 0.5
                if pictures and r.random() < 0.4:
                    kw.update({"image": True, "export_image": True, "dpi": 40, "show_image": False})
                    if len(shape_of(of["a"]["i"])) == 3:
                        kw[r.choice("xyz")] = r.randrange(8)
            op["kw"] = kw
        return op

    def picture(self, fn=None):
        r = self.rng
        fn = fn or r.choice(["export_image", "export_image", "visualize_2d", "visualize_3d", "image", "centers"])
        kw = {"dpi": r.choice([30, 40])}
        op = {"op": "picture", "fn": fn, "kw": kw}
        if fn == "export_image":
            sp = self.img(three=0.5, dts=("u8", "u16", "f32"))
            op["a"], op["b"] = self.pair(sp)
            if len(shape_of(sp)) == 3:
                kw[r.choice("xyz")] = r.randrange(8)
            if r.random() < 0.3:
                kw["roi"] = self.roi(shape_of(sp), 0.85)
            kw["show_image"] = r.random() < 0.3
            names = ["RMSE", "PSNR", "SSIM", "CNR_r", "CNR_m", "SNR_r", "SNR_m"]
            if r.random() < 0.3:
                names += ["MAD", "GSM", "UQI", "FSIM", "VSI", "VIFp", "MS-SSIM", "FSIMc", "Q-Measure_r", "Q-Measure_m"]
                if r.random() < 0.5:
                    nr = r.random() < 0.15
                    names = [m for m in names if (m[-2:] in ("_r", "_m")) == nr]
                n = r.randrange(min(5, len(names)), len(names) + 1)
            else:
                n = r.randrange(0, 6)
            op["results"] = {k: round(r.uniform(0, 90), 3) for k in r.sample(names, n)}
        elif fn == "centers":
            m = op["m"] = r.choice(["SNR", "CNR"])
            sp = self.img(three=0.5, dts=("u8", "f32"))
            sh = shape_of(sp)
            kw.update({"signal_center": self.centre(sh, 3), "radius": r.choice([2, 3])})
            if m == "CNR":
                kw["background_center"] = self.centre(sh, 3)
            if r.random() < 0.6:
                kw["region_type"] = r.choice(["cubic", "spherical", "circle", "square"])
            op["a"] = {"i": sp, "f": r.choice(["arr", "fort", "strided", "ro"])}
            op["init"] = {"data_range": top_of(sp)}
        else:
            three = fn == "visualize_3d" or (fn == "image" and r.random() < 0.5)
            sp = self.img(three=1.0 if three else 0.0, dts=("u8", "u16", "f32"))
            op["a"] = {"i": sp, "f": r.choice(["arr", "fort", "strided", "neg", "image"])}
            if three:
                kw["slices"] = T(*[r.randrange(n) if r.random() < 0.75 else -r.randrange(1, n) for n in shape_of(sp)])
            elif fn == "image":
                kw["slices"] = None
        return op

    def describe(self):
        return {"op": "describe", "a": self.ref(self.img(dts=("u8", "f32", "f64")))}

    def any(self, weights=None):
        r = self.rng
        k = r.choices(["score", "load", "normalize", "crop", "stats", "native", "util", "multi", "batch", "export", "picture", "describe"],
                      (weights or [60, 8, 4, 3, 4, 5, 6, 8]) + [0] * (12 - len(weights or [0] * 8)))[0]
        return getattr(self, k)()
