"""C07: inputs handed to the library are never modified."""
import ctypes
import mmap
import os
import signal
import sys
import zlib

import numpy as np

import common
import core
import env
import simsched
import world
from core import Violation

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 1100, "thorough": 60000}
RULE = "a run is 1-3 library calls whose inputs are either held in write-protected memory or compared at every executed library source line, some calls fault-hit or interrupted; non-trivial: a call returned or raised after at least 5 library lines; counted once per distinct plan"
STATE_MEASURE = "(call kind, metric or function, input forms, observation mode, fault kind and position decile, outcome)"
REAL = common.LIB
STUB = ["Ctrl-C delivery (raised at a chosen library source line)", "failing allocations and I/O errors (seams)",
        "caller's memory (private pages, write-protected while the library runs)"]
ASSUMPTIONS = ["a write that stores the value already there is seen only in write-protected mode",
               "statistics an ImageArray computes for itself on request (calculate_statistics, describe) are not modifications of an input"]

libc = ctypes.CDLL(None, use_errno=True)


def gen(rng, tier, i):
    g = world.Gen(rng, wide=0.35, pool=3, forms=["arr", "arr", "fort", "strided", "neg", "image", "tensor", "ro"])
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = g.any([46, 5, 6, 5, 2, 4, 10, 10, 4, 4, 3, 1])
        if rng.random() < 0.3:
            op["fault"] = world.gen_fault(rng, ("int", "int", "mem"))
        steps.append(op)
    return {"mode": rng.choice(["prot", "lines", "lines"]), "steps": steps}


def snap(o, attrs):
    """Deep picture of a container or array, made without allocating arrays."""
    import torch
    if isinstance(o, torch.Tensor):
        return ("T", tuple(o.shape), o.stride(), str(o.dtype), o.requires_grad, o._version, ctypes.string_at(o.data_ptr(), o.numel() * o.element_size()) if o.is_contiguous() else None)
    if isinstance(o, np.ndarray):
        own = ()
        if attrs and hasattr(o, "__dict__"):
            own = tuple((k, id(v)) for k, v in sorted(o.__dict__.items()))
        return ("A", o.shape, o.strides, o.dtype.str, o.flags.writeable, o.tobytes(), own)
    if isinstance(o, dict):
        return ("D", tuple((k, id(v), snap(v, attrs)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple((id(v), snap(v, attrs)) for v in o))
    if isinstance(o, (int, float, str, bytes, bool, type(None))):
        return o
    return ("O", id(o))


class Guarded(world.World):
    """A process whose inputs are watched."""

    def __init__(self, d, mode):
        super().__init__(d)
        self.mode = mode
        self.pages = []
        self.items = []
        self.attrs = True
        self.watch = self.add

    def add(self, o):
        self.items.append((o, snap(o, self.attrs)))

    def check(self):
        for o, before in self.items:
            now = snap(o, self.attrs)
            if now != before:
                return f"{type(o).__name__} changed: {diff(before, now)}"
        return None

    # write-protected memory -----------------------------------------------------
    def place(self, shape, dt, order="C"):
        n = max(1, int(np.prod(shape)) * np.dtype(dt).itemsize)
        m = mmap.mmap(-1, n)
        a = np.ndarray(shape, dt, buffer=m, order=order)
        self.pages.append((m, n))
        self.keep.append(m)
        return a

    def _form(self, a, form):
        if self.mode != "prot":
            return super()._form(a, form)
        if form == "strided":
            big = self.place([n * 2 + 1 for n in a.shape], a.dtype)
            v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
            v[...] = a
            return v
        p = self.place(a.shape, a.dtype, "F" if form == "fort" else "C")
        if form == "neg":
            p[...] = a[::-1]
            return p[::-1]
        p[...] = a
        return p if form in ("arr", "fort") else super()._form(p, form)

    def args(self, kw):
        v = super().args(kw)
        return self.lock_arrays(v) if self.mode == "prot" else v

    def lock_arrays(self, v):
        if isinstance(v, np.ndarray):
            p = self.place(v.shape, v.dtype)
            p[...] = v
            return p
        if isinstance(v, dict):
            return {k: self.lock_arrays(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.lock_arrays(x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.lock_arrays(x) for x in v)
        return v

    def protect(self, on):
        for m, n in self.pages:
            addr = ctypes.addressof(ctypes.c_char.from_buffer(m))
            if libc.mprotect(ctypes.c_void_p(addr), ctypes.c_size_t(n), 1 if on else 3):
                raise core.HarnessError("mprotect failed")

    def files_now(self):
        out = {}
        for r, _, fs in os.walk(self.d):
            if os.path.relpath(r, self.d).startswith("out"):
                continue
            for n in fs:
                p = os.path.join(r, n)
                with open(p, "rb") as f:
                    out[p] = (zlib.crc32(f.read()), os.stat(p).st_mtime_ns, os.stat(p).st_mode)
        return out

    def ready(self):
        self.files_before = self.files_now()
        if self.mode == "prot":
            self.protect(True)


def diff(a, b):
    s, t = repr(a), repr(b)
    k = next((i for i, (x, y) in enumerate(zip(s, t)) if x != y), min(len(s), len(t)))
    return f"...{s[max(0, k - 60):k + 60]} -> ...{t[max(0, k - 60):k + 60]}"[:300]


def history(d, mode, steps):
    w = Guarded(d, mode)
    out = []
    for op in steps:
        f = op.get("fault")
        w.items.clear()
        w.attrs = op["op"] not in ("stats", "describe")
        found = []
        info = {"lines": 0, "fired": 0}

        def observe(step):
            if not found:
                c = w.check()
                if c:
                    fr = sys._getframe(1).f_locals
                    found.append(f"before {fr['code'].co_name}:{fr['pos']} (line event {step}): {c}")

        def wrap(body):
            s = simsched.Sched("line", interrupt=f["n"] if f and f["k"] == "int" else None,
                               observer=observe if mode == "lines" else None, max_steps=10 ** 7)
            mem = f and f["k"] == "mem"
            if mem:
                env.simalloc.configure(0, 1, f["n"], f.get("sticky", 0), 64)
            try:
                return s.run_here(body)
            finally:
                info["lines"] = s.step
                info["fired"] = int(s.fired_interrupt)
                if mem:
                    info["fired"] = env.simalloc.stats()["failed"]
                    env.simalloc.configure(0, 1, -1, 0, 1 << 40)
                if not found:
                    c = w.check()
                    if c:
                        found.append(f"after the call: {c}")
        if f and f["k"] == "mem":
            env.simalloc.install()
        got = w.call(op, wrap)
        if mode == "prot":
            w.protect(False)
        after = w.files_now()
        for p, v in w.files_before.items():
            if after.get(p) != v:
                found.append(f"input file {os.path.basename(p)} was modified or removed")
        out.append([got, info, found])
    return out


def run(ctx, plan):
    d = ctx.fresh_dir()
    steps = []
    for op in plan["steps"]:
        op = dict(op)
        if op.get("fault"):
            op["fault"] = world.place(ctx, op, op["fault"])
        steps.append(op)
    names = ", ".join(op.get("m") or op.get("fn") or op["op"] for op in steps)
    r = ctx.child(history, d, plan["mode"], steps)
    if r["status"] == "signal" and r["sig"] in (signal.SIGSEGV, signal.SIGBUS):
        raise Violation("write", f"a call wrote to a write-protected input (signal {r['sig']}): {names}")
    if r["status"] != "ok":
        raise core.HarnessError(f"{r}") if r["status"] == "exc" else Violation("process-died", f"{r}")
    ctx.count("mode_" + plan["mode"], len(steps))
    for op, (got, info, found) in zip(steps, r["value"]):
        what = op.get("m") or op.get("fn") or op["op"]
        f = op.get("fault")
        ctx.count("calls")
        ctx.count("calls_ok" if "ok" in got else "calls_raising")
        ctx.count("op_" + op["op"])
        ctx.count("observed_lines", info["lines"])
        if info["fired"]:
            ctx.count("fault_" + f["k"])
        ctx.states.append(core.hashlib.sha256(repr((op["op"], what, op.get("a", {}).get("f"), op.get("b", {}).get("f"), plan["mode"],
                                                    (f["k"], int(f["at"] * 10)) if info["fired"] else None, "ok" in got)).encode()).hexdigest()[:12])
        if info["lines"] >= 5:
            ctx.nontrivial = True
        if found:
            raise Violation("modified", f"{what} modified an input: {found[0]}; call {world.describe(op)}")


def shrink(plan):
    yield from common.shrink_steps(plan)
    if plan["mode"] == "prot":
        yield common.with_key(plan, "mode", "lines")
