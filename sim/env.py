"""Import the library under test from /repo's working tree, behind the simulator's seams."""
import ctypes
import importlib.util
import os
import shutil
import sys
import types
from importlib.machinery import ExtensionFileLoader, PathFinder, SourceFileLoader

REPO = "/repo"
SRC = REPO + "/src"
STAT_NAME = "viqa.fr_metrics.stat_utils.statisticscalc"
QM_NAME = "viqa.nr_metrics.qmeasure_utils.qmeasurecalc"

code_objects = []  # every code object compiled from the library's sources


def _collect(code):
    code_objects.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _collect(c)


class _Loader(SourceFileLoader):
    """Always compiles the source (never a cached .pyc) and remembers the code objects."""

    def get_code(self, fullname):
        code = self.source_to_code(self.get_data(self.path), self.path)
        _collect(code)
        return code


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == STAT_NAME:
            so = os.environ["VERIF_STAT_SO"]
            return importlib.util.spec_from_file_location(
                name, so, loader=ExtensionFileLoader(name, so))
        if name == QM_NAME:
            so = os.environ.get("VERIF_QM_SO")
            if not so:
                return None
            return importlib.util.spec_from_file_location(
                name, so, loader=ExtensionFileLoader(name, so))
        if name != "viqa" and not name.startswith("viqa."):
            return None
        for f in sys.meta_path:
            if f is _Finder or not hasattr(f, "find_spec"):
                continue
            spec = f.find_spec(name, path, target)
            if spec is None:
                continue
            if type(spec.loader) is SourceFileLoader:
                spec.loader = _Loader(name, spec.origin)
            elif isinstance(spec.loader, SourceFileLoader):  # the QMeasure-dropping loader
                inner = spec.loader
                orig = inner.get_code

                def get_code(fullname, _o=orig):
                    code = _o(fullname)
                    _collect(code)
                    return code

                inner.get_code = get_code
            return spec
        return None


def load_script(name):
    """Load one of the command-line tools as a module (its __main__ part is not run)."""
    path = f"{SRC}/scripts/{name}.py"
    loader = _Loader("viqa_script_" + name, path)
    spec = importlib.util.spec_from_file_location("viqa_script_" + name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


def script_code(name):
    path = f"{SRC}/scripts/{name}.py"
    with open(path, "rb") as f:
        code = compile(f.read(), path, "exec")
    return code


class Shim:
    KINDS = ["open", "read", "write", "close", "mmap", "rename", "mkdir", "unlink", "copy",
             "dir", "trunc", "sync"]
    ERR, SHORT, CRASH, CRASH_AFTER, CRASH_TORN, STICKY = 1, 2, 3, 4, 5, 6

    def __init__(self):
        lib = ctypes.CDLL(os.environ["VERIF_SHIM_SO"])
        self.lib = lib
        lib.sim_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        lib.sim_count.restype = lib.sim_fired.restype = lib.sim_log_len.restype = ctypes.c_long
        lib.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        lib.sim_clock_now.restype = ctypes.c_int64
        lib.sim_clock_reads.restype = ctypes.c_long
        lib.sim_dirshuffle.argtypes = [ctypes.c_int, ctypes.c_uint64]
        lib.simm_config.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        lib.simm_count.restype = lib.simm_live.restype = lib.simm_fired.restype = ctypes.c_long

    def kind(self, name):
        return -1 if name == "any" else self.KINDS.index(name)

    def start(self, root):
        self.lib.sim_root(os.fsencode(os.path.realpath(root)))
        self.lib.sim_reset()
        self.lib.sim_enable(1)

    def stop(self):
        self.lib.sim_enable(0)

    def reset(self):
        self.lib.sim_reset()

    def heal(self):
        self.lib.sim_heal()

    def plan(self, kind, idx, action, arg=0, err=5):
        self.lib.sim_plan(self.kind(kind), idx, action, arg, err)

    def count(self, kind="any"):
        return self.lib.sim_count(self.kind(kind))

    def fired(self):
        return self.lib.sim_fired()

    def log(self):
        out = []
        k, a = ctypes.c_int(), ctypes.c_int()
        n = ctypes.c_long()
        buf = ctypes.create_string_buffer(64)
        for i in range(self.lib.sim_log_len()):
            self.lib.sim_log_get(ctypes.c_long(i), ctypes.byref(k), ctypes.byref(a), ctypes.byref(n), buf, 64)
            out.append([self.KINDS[k.value], a.value, n.value, buf.value.decode("utf8", "replace")])
        return out


shim = None
simalloc = None
viqa = None


def preload(scratch):
    """Import third-party packages, then the library, once, in the zygote process."""
    global shim, simalloc, viqa
    mpl = os.path.join(scratch, "mpl")
    if os.path.isdir("/opt/vp/support/mpl"):
        shutil.copytree("/opt/vp/support/mpl", mpl)
    else:
        os.makedirs(mpl)
    os.environ["MPLCONFIGDIR"] = mpl
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import torch
    torch.set_num_threads(1)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import nibabel as nib
    import piq  # noqa: F401
    import scipy.io  # noqa: F401
    import scipy.ndimage  # noqa: F401
    import scipy.signal  # noqa: F401
    import scipy.stats  # noqa: F401
    import skimage as ski
    import skimage.transform  # noqa: F401
    import skimage.metrics  # noqa: F401
    import skimage.color  # noqa: F401
    import tqdm
    import tqdm.autonotebook  # noqa: F401
    import tqdm.auto  # noqa: F401
    try:
        import IPython.display  # noqa: F401
        import ipywidgets  # noqa: F401
    except ImportError:
        pass
    import concurrent.futures.thread  # noqa: F401
    import csv, datetime, importlib.metadata, glob, shutil as _s, gzip, zlib  # noqa: F401,E401
    # warm lazily imported readers and writers of the third-party packages
    warm = os.path.join(scratch, "warm")
    os.makedirs(warm)
    a = (np.arange(48 * 48) % 251).astype(np.uint8).reshape(48, 48)
    for ext in ("png", "bmp", "tiff", "jpg"):
        ski.io.imsave(f"{warm}/x.{ext}", a, check_contrast=False)
        ski.io.imread(f"{warm}/x.{ext}")
    for ext in ("nii", "nii.gz"):
        nib.save(nib.Nifti1Image(a[:, :, None].astype(np.float32), np.eye(4)), f"{warm}/x.{ext}")
        nib.load(f"{warm}/x.{ext}").get_fdata()
    ski.transform.resize(a, (20, 20), preserve_range=True, order=1)
    f = plt.figure()
    plt.imshow(a)
    plt.title("warm")
    f.savefig(f"{warm}/f.png")
    plt.close("all")
    scipy.io.savemat(f"{warm}/x.mat", {"a": a})
    t = torch.rand(1, 1, 48, 48)
    piq.fsim(t, t, data_range=1.0, chromatic=False)
    piq.vsi(t, t, data_range=1.0)
    piq.vif_p(t, t, data_range=1.0)
    for c in (tqdm.tqdm, tqdm.autonotebook.tqdm, tqdm.auto.tqdm):
        c.monitor_interval = 0
    shutil.rmtree(warm)
    import simsched as _sched
    _sched.patch_locks()
    sys.meta_path.insert(0, _Finder)
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import viqa as _v
    if not os.path.realpath(_v.__file__).startswith(REPO):
        raise RuntimeError("viqa was not imported from /repo")
    viqa = _v
    if os.environ.get("VERIF_QM_SO"):     # left out of the package here; the engine is a stand-in
        _v.QMeasure = importlib.import_module("viqa.nr_metrics.qmeasure").QMeasure
    shim = Shim()
    spec = importlib.util.spec_from_file_location("simalloc", os.environ["VERIF_ALLOC_SO"])
    simalloc = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(simalloc)
    import gc
    gc.collect()
    gc.freeze()         # children need not walk (and copy) what the zygote allocated
    return _v
