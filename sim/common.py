"""Helpers shared by the property modules."""
import copy


def drop(seq):
    """Shorter variants of a list: halves first, then single elements."""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = seq[:i] + seq[i + size:]
            if c or n == 1:
                if c:
                    yield c
        size //= 2


def with_key(plan, key, value):
    p = copy.deepcopy(plan)
    p[key] = value
    return p


def simpler_op(op):
    """Simpler variants of one call."""
    for k in list(op.get("kw", {})):
        c = copy.deepcopy(op)
        del c["kw"][k]
        yield c
    if "fault" in op and op["fault"]:
        c = copy.deepcopy(op)
        c["fault"] = None
        yield c
    for side in ("a", "b"):
        if side in op and op[side]["f"] not in ("arr",) and not op[side]["f"].startswith("file"):
            c = copy.deepcopy(op)
            c[side]["f"] = "arr"
            yield c
    for k in list(op.get("init", {})):
        if k in ("roi", "normalize"):
            c = copy.deepcopy(op)
            del c["init"][k]
            yield c


def shrink_steps(plan, key="steps", min_len=1):
    for c in drop(plan[key]):
        if len(c) >= min_len:
            yield with_key(plan, key, c)
    for i, op in enumerate(plan[key]):
        for s in simpler_op(op):
            p = copy.deepcopy(plan)
            p[key][i] = s
            yield p


LIB = ["src/viqa (all Python modules, from /repo's working tree)", "statisticscalc C extension (rebuilt from /repo's working tree)",
       "numpy, scipy, scikit-image, piq/torch, nibabel, matplotlib (installed packages)"]
NODES = "each simulated run is one forked process of the real library; oracles run in pristine forks"


def without(seq, k):
    return list(seq[:k]) + list(seq[k + 1:])
