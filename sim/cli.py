"""Run one of the command-line tools as its own simulated process."""
import gc
import os
import resource
import sys

import env
import simsched

SCRIPTS = ["write_to_csv", "combine_stack", "crop_image", "reduce_projections", "write_to_mat"]
CODE = {}


def setup():
    """In the zygote: compile the tools from the working tree and import what they import."""
    import scipy.io      # noqa: F401
    import scipy.io.matlab  # noqa: F401
    for n in SCRIPTS:
        try:
            CODE[n] = env.script_code(n)
        except (OSError, SyntaxError):
            CODE[n] = None


def start(name, argv, root, fault=None, shuffle=None):
    """Runs inside a forked child. Returns {"ok", "err", "ops", "lines", "fired"}.

    fault: {"k": "io", "kind", "n", "act", "arg", "err"} | {"k": "full", "n"} | {"k": "int", "n"}"""
    code = CODE[name]
    env._collect(code)
    sys.argv = [name + ".py"] + list(argv)
    fault = fault or {}
    out = {"ok": False, "fired": 0}
    if shuffle is not None:
        env.shim.lib.sim_dirshuffle(1, shuffle)
    env.shim.start(root)
    if fault.get("k") == "io":
        env.shim.plan(fault.get("kind", "any"), fault["n"], fault["act"], fault.get("arg", 1), fault.get("err", 5))
    sch = simsched.Sched("line", interrupt=fault["n"] if fault.get("k") == "int" else None, max_steps=10 ** 7)
    limits = resource.getrlimit(resource.RLIMIT_FSIZE)
    if fault.get("k") == "full":
        resource.setrlimit(resource.RLIMIT_FSIZE, (fault["n"], limits[1]))

    def body():
        ns = {"__name__": "__main__", "__file__": f"{env.SRC}/scripts/{name}.py"}
        try:
            exec(code, ns)
        finally:
            ns.clear()
            gc.collect()
    try:
        sch.run_here(body)
        out["ok"] = True
    except SystemExit as e:
        out["ok"] = e.code in (None, 0)
        out["err"] = f"exit {e.code}"
    except BaseException as e:
        out["err"] = type(e).__name__
        out["text"] = str(e)[:200]
        out["fired"] = int(isinstance(e, KeyboardInterrupt))
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, limits)
        out["ops"] = env.shim.count()
        out["log"] = [x[0] for x in env.shim.log()] if not fault else []
        out["fired"] = out["fired"] or env.shim.fired()
        out["lines"] = sch.step
        env.shim.stop()
        env.shim.heal()
        env.shim.lib.sim_dirshuffle(0, 0)
    return out


def tree(d):
    """{relative path: bytes, or None for a directory}"""
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d)] = None
        for n in files:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def place(d, files):
    """files: {relative path: bytes}; created in the order given."""
    for n, data in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def position(f, log):
    """Index of the operation an I/O fault hits: uniform over operations, or over kinds first."""
    if "at2" not in f:
        return min(len(log) - 1, int(f["at"] * len(log)))
    kinds = sorted(set(log))
    k = kinds[min(len(kinds) - 1, int(f["at"] * len(kinds)))]
    idx = [i for i, x in enumerate(log) if x == k]
    return idx[min(len(idx) - 1, int(f["at2"] * len(idx)))]
