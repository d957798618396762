"""C16: calls leave the surrounding process state alone."""
import copy
import os

import numpy as np

import common
import core
import env
import simsched
import world
from core import Violation

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 50000}
RULE = "a run is one process with seeded ambient settings (generator seeds, working directory, locale, floating-point error handling, warning filters, numeric library, plotting and print defaults) performing 1-4 library calls, some failing, fault-hit or interrupted; the ambient state is compared before and after each call; non-trivial: at least one call entered the library; counted once per distinct plan"
STATE_MEASURE = "(call kind, metric or function, fault kind and position decile, outcome, ambient settings)"
REAL = common.LIB
STUB = ["Ctrl-C delivery (raised at a chosen library source line)", "failing allocations and I/O errors (seams)"]
ASSUMPTIONS = ["the ambient state is the list of settings in c16.snapshot (60 items); settings outside that list are not compared",
               "only the locales installed here (C, C.UTF-8, POSIX) are used",
               "results are compared with a fresh process when only generator state, working directory, locale and print options were varied"]

SETTINGS = {
    "cwd": ["scratch", "decoy", "gone"],
    "locale": ["C", "C.utf8", "POSIX"],
    "print": [1, 2],
    "err": ["raise", "warn", "ignore", "call"],
    "warn": ["error", "always", "default", "once", "mine"],
    "torch": ["f64", "threads", "nograd", "det"],
    "rc": ["dpi", "cmap", "ion", "fig"],
    "misc": ["decimal", "recursion", "csv", "logging", "gc", "umask", "sigint", "bufsize", "tmp", "fft", "env"],
}
NEUTRAL = ("cwd", "locale", "print")       # must not change any result


# ---------------------------------------------------------------- plans
def gen(rng, tier, i):
    g = world.Gen(rng, pool=3)
    steps = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        op = g.any([40, 8, 4, 3, 4, 5, 6, 8, 6, 8, 6, 3])
        if op["op"] == "export" and op.get("kw", {}).get("image"):
            op["kw"]["dpi"] = 20
        if op["op"] == "picture":
            op["kw"]["dpi"] = 20
        if rng.random() < 0.5:
            op["fault"] = world.gen_fault(rng)
        elif rng.random() < 0.15:
            op["fault"] = {"k": "watch"}
        steps.append(op)
    amb = {}
    if rng.random() < 0.75:
        names = [n for n in SETTINGS if rng.random() < 0.35]
        if rng.random() < 0.4:
            names = [n for n in names if n in NEUTRAL]
        for n in names:
            amb[n] = rng.choice(SETTINGS[n])
    return {"steps": steps, "amb": amb, "seed": rng.randrange(10 ** 6), "kinds": rng.random() < 0.3}


def shrink(plan):
    yield from common.shrink_steps(plan)
    for k in plan["amb"]:
        yield {**plan, "amb": {a: b for a, b in plan["amb"].items() if a != k}}


# ---------------------------------------------------------------- ambient state
def on_sigint(*a):
    raise KeyboardInterrupt


def on_err(*a):
    pass


def apply(d, plan, steps):
    import csv
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import sys
    import tempfile
    import warnings
    import matplotlib
    import matplotlib.pyplot as plt
    import scipy.fft
    import torch
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] + 1)
    torch.manual_seed(plan["seed"] + 2)
    for k in range(plan["seed"] % 7):
        random.random()
        np.random.rand()
        torch.rand(1)
    a = plan["amb"]
    if "cwd" in a:
        c = os.path.join(d, "cwd")
        os.makedirs(c)
        os.chdir(c)
        if a["cwd"] == "decoy":      # files of the same names with other content
            for op in steps:
                o = op.get("of", op)
                refs = [("img" + world.ref_key(o[k]), o[k]) for k in ("a", "b") if k in o]
                refs += [(f"{o.get('stem', 'img')}{k}", r) for k, r in enumerate(o.get("files", []))]
                for stem, r in refs:
                    if r["f"].startswith("file:"):
                        world.put_files(c, world.file_blobs(stem, r["f"][5:], {**r["i"], "s": 9999}))
            for n in ("p.png", "r.csv", "m.txt", "pairs.csv", "image_comparison.png", "results.csv", "metadata.txt"):
                with open(n, "w") as f:
                    f.write("mine\n")
        elif a["cwd"] == "gone":
            os.rmdir(c)
    if "locale" in a:
        locale.setlocale(locale.LC_ALL, a["locale"])
    if "print" in a:
        np.set_printoptions(precision=a["print"], threshold=3, suppress=True, sign="+")
        torch.set_printoptions(precision=a["print"])
    if "err" in a:
        np.seterr(all=a["err"])
        if a["err"] == "call":
            np.seterrcall(on_err)
    if "warn" in a:
        if a["warn"] == "mine":
            warnings.filterwarnings("error", message="nothing of that kind")
            warnings.showwarning = lambda *x, **y: None
        else:
            warnings.simplefilter(a["warn"])
    t = a.get("torch")
    if t == "f64":
        torch.set_default_dtype(torch.float64)
    elif t == "threads":
        torch.set_num_threads(3)
    elif t == "nograd":
        torch.set_grad_enabled(False)
    elif t == "det":
        torch.use_deterministic_algorithms(True, warn_only=True)
    r = a.get("rc")
    if r == "dpi":
        matplotlib.rcParams["figure.dpi"] = 33
        matplotlib.rcParams["savefig.dpi"] = 22
    elif r == "cmap":
        matplotlib.rcParams["image.cmap"] = "gray"
        matplotlib.rcParams["image.origin"] = "lower"
    elif r == "ion":
        plt.ion()
    elif r == "fig":
        plt.figure(7)
    m = a.get("misc")
    if m == "decimal":
        decimal.getcontext().prec = 5
    elif m == "recursion":
        sys.setrecursionlimit(1500)
    elif m == "csv":
        csv.field_size_limit(4096)
        csv.register_dialect("mine", delimiter="|")
    elif m == "logging":
        logging.disable(logging.INFO)
        logging.getLogger().setLevel(logging.ERROR)
    elif m == "gc":
        gc.set_threshold(123, 4, 5)
    elif m == "umask":
        os.umask(0o077)
    elif m == "sigint":
        signal.signal(signal.SIGINT, on_sigint)
        signal.signal(signal.SIGUSR1, on_sigint)
    elif m == "bufsize":
        np.setbufsize(4096)
    elif m == "tmp":
        tempfile.tempdir = d
    elif m == "fft":
        scipy.fft.set_global_backend("scipy")
    elif m == "env":
        os.environ["TZ"] = "UTC"
        os.environ["MY_SETTING"] = "1"


def generators():
    import random
    import torch
    s = np.random.get_state()
    return [hash(random.getstate()), s[1].tobytes() + repr(s[2:]).encode(), torch.get_rng_state().numpy().tobytes()]


def snapshot():
    import builtins
    import csv
    import decimal
    import faulthandler
    import gc
    import locale
    import logging
    import resource
    import signal
    import socket
    import sys
    import tempfile
    import threading
    import time
    import warnings
    import matplotlib
    import matplotlib.pyplot as plt
    import nibabel
    import PIL.Image
    import PIL.ImageFile
    import scipy.fft
    import scipy.special
    import torch
    s = {}
    g = generators()
    s["state of the random module"] = g[0]
    s["state of numpy's global generator"] = g[1]
    s["identity of numpy's global generator"] = id(np.random.mtrand._rand._bit_generator)
    s["state of torch's generator"] = g[2]
    s["numpy error handling"] = np.geterr()
    s["numpy error callback"] = id(np.geterrcall())
    s["numpy buffer size"] = np.getbufsize()
    s["scipy.special error handling"] = scipy.special.geterr()
    s["warning filters"] = [repr(f) for f in warnings.filters]
    s["warning display"] = (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s["plotting defaults"] = {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}
    s["plotting backend"] = matplotlib.get_backend()
    s["interactive plotting"] = plt.isinteractive()
    s["plotting show function"] = id(plt.show)
    s["user figure"] = 7 in plt.get_fignums()
    s["torch default dtype"] = str(torch.get_default_dtype())
    s["torch default device"] = str(torch.get_default_device())
    s["torch threads"] = (torch.get_num_threads(), torch.get_num_interop_threads())
    s["torch gradient mode"] = (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_anomaly_enabled())
    s["torch determinism"] = (torch.are_deterministic_algorithms_enabled(), torch.backends.cudnn.deterministic, torch.backends.cudnn.benchmark, torch.get_float32_matmul_precision())
    s["torch print options"] = repr(torch._tensor_str.PRINT_OPTS)
    try:
        s["working directory"] = os.getcwd()
    except FileNotFoundError:
        s["working directory"] = "deleted"
    s["environment"] = dict(os.environ)
    u = os.umask(0o022)
    os.umask(u)
    s["umask"] = u
    s["numpy print options"] = {k: repr(v) for k, v in np.get_printoptions().items()}
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signal handlers"] = [(n, repr(signal.getsignal(n))) for n in signal.valid_signals()]
    s["signal mask"] = sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, [])))
    s["timers"] = [signal.getitimer(k)[0] > 0 for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    s["decimal context"] = repr(decimal.getcontext())
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["standard streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["interpreter hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.gettrace()), id(sys.getprofile()), id(sys.unraisablehook))
    s["module search path"] = list(sys.path)
    s["float format"] = sys.float_repr_style
    s["integer digit limit"] = sys.get_int_max_str_digits()
    s["command line"] = list(sys.argv)
    s["garbage collection"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["csv settings"] = (csv.field_size_limit(), sorted(csv.list_dialects()))
    s["image library settings"] = (PIL.Image.MAX_IMAGE_PIXELS, PIL.ImageFile.LOAD_TRUNCATED_IMAGES)
    s["logging"] = (logging.root.level, logging.root.manager.disable, len(logging.root.handlers), logging.lastResort is None, logging._nameToLevel.get("INFO"))
    s["nibabel settings"] = (nibabel.imageglobals.error_level, nibabel.imageglobals.logger.level, len(nibabel.imageglobals.logger.handlers), nibabel.openers.Opener.default_compresslevel)
    s["fft workers"] = scipy.fft.get_workers()
    s["temporary directory"] = tempfile.tempdir
    s["socket timeout"] = socket.getdefaulttimeout()
    s["time zone"] = (time.tzname, time.timezone)
    s["threads"] = threading.active_count()
    s["thread stack size"] = threading.stack_size()
    s["resource limits"] = [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_CPU)]
    s["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    s["faulthandler"] = faulthandler.is_enabled()
    s["builtins"] = sorted(vars(builtins))
    s["denormal numbers"] = 4e-308 / len("x" * 8) > 0
    s["division rounding"] = len("x") / len("xxx")
    return s


def differences(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, bytes):
                out.append(k)
            elif isinstance(x, dict):
                ch = [f"{n}: {x.get(n)!r} -> {y.get(n)!r}" for n in sorted(set(x) | set(y)) if x.get(n) != y.get(n)]
                out.append(f"{k} ({'; '.join(ch)[:200]})")
            elif isinstance(x, list) and len(repr(x)) > 200:
                gone, new = [v for v in x if v not in y], [v for v in y if v not in x]
                out.append(f"{k} (removed {gone!r:.150}, added {new!r:.150})")
            else:
                out.append(f"{k} ({x!r:.150} -> {y!r:.150})")
    return out


class Bare(world.World):
    before = None

    def ready(self):
        self.before = snapshot()


def history(d, plan, steps):
    w = Bare(d)
    w.bare = True
    apply(d, plan, steps)
    out = []
    for op in steps:
        w.before = None
        f = op.get("fault")
        seen = []
        if f and f["k"] == "watch":
            w.fired = 0
            got = watched(w, op, seen)
        else:
            got = w.call_with(op, f)
        after = snapshot()
        out.append([got, w.fired, differences(w.before, after) if w.before else None, sorted(set(seen))])
    return out


def watched(w, op, seen):
    """Perform the call while another observer looks at the process at library lines."""
    first = []

    def look(step):
        if step % 3 and step > 60:
            return
        try:
            c = os.getcwd()
        except FileNotFoundError:
            c = "deleted"
        e = dict(os.environ)
        now = [c, e]
        if not first:
            first.extend(now)
        elif now[0] != first[0]:
            seen.append("working directory")
        elif now[1] != first[1]:
            seen.append("environment")

    def wrap(body):
        return simsched.Sched("line", observer=look, max_steps=10 ** 7).run_here(body)
    return w.call(op, wrap)


# ---------------------------------------------------------------- judging
def run(ctx, plan):
    steps = []
    for op in plan["steps"]:
        op = dict(op)
        f = op.get("fault")
        if f and f["k"] != "watch":
            op["fault"] = world.place(ctx, op, f)
        steps.append(op)
    res = ctx.child_ok(history, ctx.fresh_dir(), plan, steps)
    neutral = all(k in NEUTRAL for k in plan["amb"])
    for idx, (op, (got, fired, diff, seen)) in enumerate(zip(steps, res)):
        f = op.get("fault")
        what = op.get("m") or op.get("fn") or op.get("ex") or op["op"]
        ctx.count("calls")
        ctx.count("op_" + op["op"])
        if fired:
            ctx.count("fault_" + f["k"])
        if f and f["k"] == "watch":
            ctx.count("watched")
        if diff is None:
            continue
        ctx.nontrivial = True
        end = "returned" if "ok" in got else "raised " + got["exc"]
        if diff:
            raise Violation("ambient-state", f"call {idx} ({what}, fault {f if fired else None}) {end} and changed: {', '.join(diff)}")
        if seen:
            raise Violation("ambient-state-during", f"call {idx} ({what}) changed while running: {', '.join(seen)}")
        if neutral and not fired:
            want = world.fresh_outcome(ctx, op)[0]
            ctx.count("results_compared")
            if not world.same(got, want, world.rtol_of(op)):
                raise Violation("ambient-dependent", f"call {idx} ({what}) with {plan['amb']} and generator seed {plan['seed']} gave {world.describe(got)}, in a fresh process {world.describe(want)}")
        ctx.states.append(core.hashlib.sha256(repr((op["op"], what, fired and (f["k"], int(f["at"] * 10)), end, sorted(plan["amb"].items()))).encode()).hexdigest()[:12])
