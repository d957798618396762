"""Build the native seams and, from /repo's current tree, the statistics extension.

Prints the path of a shell file naming the built objects.  Objects are keyed by the
content of everything that goes into them, so a changed tree is rebuilt."""
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "build")
REPO = "/repo"
STAT = os.path.join(REPO, "src/viqa/fr_metrics/stat_utils")


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build(name, files, srcs, flags, suffix=".so", cc="/usr/bin/gcc", must=True):
    key = digest(files, " ".join(flags) + sys.version)
    target = os.path.join(OUT, f"{name}-{key}", name + suffix)
    if not os.path.exists(target):
        os.makedirs(os.path.dirname(target), exist_ok=True)
        tmp = target + f".{os.getpid()}"
        r = subprocess.run(
            [cc, "-shared", "-fPIC", *flags, *srcs, "-o", tmp, "-lm", "-ldl"],
            capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            if not must:
                return ""
            sys.exit(1)
        os.replace(tmp, target)
    return target


def main():
    import numpy
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
    nat = os.path.join(HERE, "native")
    shim = build("shim", [nat + "/shim.c"], [nat + "/shim.c"], ["-O1"])
    alloc = build("simalloc", [nat + "/simalloc.c"], [nat + "/simalloc.c"], ["-O1", *inc],
                  sysconfig.get_config_var("EXT_SUFFIX"))
    csrc = glob.glob(STAT + "/*.c")
    cdep = csrc + glob.glob(STAT + "/*.h")
    redirect = [f"-D{a}=verif_{a}" for a in ("malloc", "calloc", "realloc", "free")]
    redirect += ["-DPyMem_Malloc=verif_malloc", "-DPyMem_RawMalloc=verif_malloc",
                 "-DPyMem_Calloc=verif_calloc", "-DPyMem_RawCalloc=verif_calloc",
                 "-DPyMem_Realloc=verif_realloc", "-DPyMem_RawRealloc=verif_realloc",
                 "-DPyMem_Free=verif_free", "-DPyMem_RawFree=verif_free"]
    stat = build("statisticscalc", cdep, csrc, ["-std=c11", "-O3", "-w", *inc, *redirect],
                 sysconfig.get_config_var("EXT_SUFFIX"))
    statp = build("statisticscalc", cdep, csrc, ["-std=c11", "-O3", "-w", "-ftrivial-auto-var-init=pattern", *inc, *redirect],
                  sysconfig.get_config_var("EXT_SUFFIX"))
    # the Q-measure binding of the tree with a stand-in for the external engine
    qdir, qstub = os.path.join(REPO, "src/viqa/nr_metrics/qmeasure_utils"), os.path.join(nat, "qstub")
    qsrc = glob.glob(qdir + "/*.cpp")
    qm = build("qmeasurecalc", qsrc + glob.glob(qdir + "/*.h") + glob.glob(qstub + "/*.h"), qsrc,
               ["-std=c++17", "-O1", "-w", *inc, "-I" + qstub, "-I" + qdir], sysconfig.get_config_var("EXT_SUFFIX"), "/usr/bin/g++", False)
    sh = os.path.join(OUT, f"env-{digest([], shim + alloc + stat + statp + qm)}.sh")
    tmp = sh + f".{os.getpid()}"
    with open(tmp, "w") as f:
        f.write(f"VERIF_SHIM_SO={shim}\nVERIF_ALLOC_SO={alloc}\nVERIF_STAT_SO={stat}\nVERIF_STATP_SO={statp}\nVERIF_QM_SO={qm}\n")
    os.replace(tmp, sh)
    print(sh)


main()
