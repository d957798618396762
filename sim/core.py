"""Run engine: forked children per simulated run, seeded search, minimisation, evidence."""
import hashlib
import json
import math
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def derive(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- forked execution
def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def fork_call(func, args=(), timeout=90, err_path=None, rlimit=None):
    """Run func(*args) in a forked copy of this (pristine) process.

    Returns {"status": "ok", "value": ...} | "exc" (harness exception) | "signal" |
    "exit" | "timeout"."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            # move the result pipe out of the way of descriptor accounting
            w2 = os.dup2(w, 200)
            os.close(w)
            nul = os.open("/dev/null", os.O_WRONLY)
            os.dup2(nul, 1)
            if err_path:
                e = os.open(err_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(e, 2)
                os.close(e)
            else:
                os.dup2(nul, 2)
            os.close(nul)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            try:
                val = func(*args)
                msg = {"status": "ok", "value": val}
            except BaseException:
                msg = {"status": "exc", "tb": traceback.format_exc()}
            import env
            if env.shim is not None:
                env.shim.stop()
                env.shim.lib.sim_clock(0, 0, 0)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            except Exception:
                pass
            _send(w2, msg)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
            break
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"status": "timeout"}
    if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
        return pickle.loads(buf[8:])
    err = ""
    if err_path and os.path.exists(err_path):
        with open(err_path, errors="replace") as f:
            err = f.read()[-3000:]
    if os.WIFSIGNALED(st):
        return {"status": "signal", "sig": os.WTERMSIG(st), "err": err}
    return {"status": "exit", "code": os.WEXITSTATUS(st), "err": err}


class Ctx:
    """What a property module gets for one simulated run."""

    def __init__(self, scratch, wid):
        self.base = scratch
        self.wid = wid
        self.counters = {}
        self.oracle_cache = {}
        self.children = 0

    def fresh_dir(self):
        d = os.path.join(self.base, f"w{self.wid}")
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def child(self, func, *args, timeout=90):
        self.children += 1
        return fork_call(func, args, timeout, err_path=os.path.join(self.base, f"err{self.wid}"))

    def child_ok(self, func, *args, timeout=90):
        r = self.child(func, *args, timeout=timeout)
        if r["status"] == "ok":
            return r["value"]
        if r["status"] == "signal" and r["sig"] != signal.SIGKILL:
            raise Violation("process-died", f"a library call killed the process with signal {r['sig']}: {r['err'][-600:]}")
        if r["status"] == "exit":
            raise Violation("process-died", f"a library call ended the process with exit status {r['code']}: {r['err'][-600:]}")
        if r["status"] == "timeout":
            raise Violation("hang", f"the simulated process did not finish within {timeout} s")
        raise HarnessError(f"child failed: {r}")


class Violation(Exception):
    def __init__(self, kind, detail, **extra):
        super().__init__(kind, detail)
        self.kind, self.detail, self.extra = kind, detail, extra


# ---------------------------------------------------------------- value comparison
def close(a, b, rtol):
    """Equal outcome values: floats up to rtol, everything else exactly."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(close(x, y, rtol) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in "fc":
            m = float(np.max(np.abs(a[np.isfinite(a)]), initial=0.0))
            return bool(np.allclose(a, b, rtol=rtol, atol=rtol * m + 1e-12, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-12
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(close(a[k], b[k], rtol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return close(float(a), float(b), rtol)
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- search
def execute(mod, ctx, plan):
    """Run one plan; returns None or a violation dict."""
    try:
        mod.run(ctx, plan)
        return None
    except Violation as v:
        return {"kind": v.kind, "detail": v.detail, **v.extra}


def minimise(mod, ctx, plan, viol, budget_s):
    end = time.monotonic() + budget_s
    tried = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cand in mod.shrink(plan):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                v = execute(mod, ctx, cand)
            except HarnessError:
                continue
            if v is not None and v["kind"] == viol["kind"]:
                plan, viol, improved = cand, v, True
                break
    return plan, viol, tried


def worker(mod, wid, nworkers, total, seed, tier, scratch, wfd, deadline, stop_path, start=0):
    ctx = Ctx(scratch, wid)
    done = 0
    cases = {}
    samples = []
    viols = []
    harness = []
    i = start + wid
    try:
        while i < start + total:
            if time.monotonic() > deadline or os.path.exists(stop_path):
                break
            rng = rng_for("verif", mod.ID, seed, tier, i)
            plan = mod.gen(rng, tier, i)
            sig = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16]
            ctx.nontrivial = False
            ctx.states = []
            try:
                v = execute(mod, ctx, plan)
            except HarnessError as e:
                harness.append({"index": i, "error": str(e)[-1500:]})
                v = None
            except Exception:
                harness.append({"index": i, "error": traceback.format_exc()[-1500:]})
                v = None
            done += 1
            if ctx.nontrivial:
                cases[sig] = 1
            for s in ctx.states:
                cases["s:" + str(s)] = 1
            if len(samples) < 2 and ctx.nontrivial:
                samples.append({"index": i, "plan": plan})
            if v is not None:
                viols.append({"index": i, "plan": plan, "violation": v})
                open(stop_path, "w").close()
                break
            i += nworkers
    except BaseException:
        harness.append({"index": i, "error": traceback.format_exc()[-1500:]})
    finally:
        _send(wfd, {"done": done, "cases": list(cases), "samples": samples, "viols": viols,
                    "harness": harness, "counters": ctx.counters, "children": ctx.children})
        os._exit(0)


def run_pool(mod, seed, tier, total, scratch, nworkers, wall, start=0):
    deadline = time.monotonic() + wall
    stop_path = os.path.join(scratch, "stop")
    if os.path.exists(stop_path):
        os.unlink(stop_path)
    procs = []
    for w in range(nworkers):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p, rr in procs:
                os.close(rr)
            worker(mod, w, nworkers, total, seed, tier, scratch, wr, deadline, stop_path, start)
            os._exit(1)
        os.close(wr)
        procs.append((pid, r))
    out = []
    for pid, r in procs:
        buf = b""
        while True:
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        if len(buf) < 8:
            out.append({"done": 0, "cases": [], "samples": [], "viols": [], "counters": {}, "children": 0,
                        "harness": [{"index": -1, "error": "worker died"}]})
        else:
            out.append(pickle.loads(buf[8:]))
    return out


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e.get("status") == "open"]


def make_scratch():
    return tempfile.mkdtemp(prefix="verif-sim-", dir="/tmp")
