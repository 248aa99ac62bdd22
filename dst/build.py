"""Builds, from /repo's working tree, the extension modules that the checks run.

Two variants of each extension: 'sim' (every memory access, lock, allocation and thread operation goes
to native/simrt.cpp) and 'plain' (as setup.py builds it). The result is kept in .build/ under a hash
of everything that goes into it; a tree seen before is not built again.
"""
import contextlib
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")


class BuildError(Exception):
    pass


def extensions():
    """What setup.py asks for: [(name, sources, include dirs, flags)]."""
    import setuptools

    got = {}
    old = setuptools.setup
    cwd = os.getcwd()
    os.chdir(REPO)
    try:
        setuptools.setup = lambda **kw: got.update(kw)
        src = open("setup.py").read()
        exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": os.path.join(REPO, "setup.py")})
    finally:
        setuptools.setup = old
        os.chdir(cwd)
    out = []
    for e in got.get("ext_modules", []):
        out.append((e.name, [os.path.join(REPO, s) for s in e.sources], list(e.include_dirs),
                    [f for f in (e.extra_compile_args or []) if not f.startswith("-l")],
                    [f"-D{k}={v}" if v is not None else f"-D{k}" for k, v in (e.define_macros or [])]))
    return out


def digest():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "setup.py")]
    for ext in ("cpp", "hpp", "h", "c", "cc", "hh", "cxx", "hxx", "inc", "ipp", "tpp"):
        files += glob.glob(os.path.join(REPO, "src", "**", "*." + ext), recursive=True)
    files += glob.glob(os.path.join(HERE, "native", "*.cpp")) + [os.path.abspath(__file__)]
    for f in sorted(set(files)):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def wraps():
    s = open(os.path.join(HERE, "native", "simrt.cpp")).read()
    return sorted(set(re.findall(r"__wrap_(\w+)\(", s)))


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build():
    """Returns the directory that holds libsimrt.so, npmem.so, sim/<name>.so and plain/<name>.so."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, digest())
    with open(os.path.join(BUILD, "lock"), "w") as lockf:
        fcntl.flock(lockf, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return d
        os.makedirs(os.path.join(d, "sim"), exist_ok=True)
        os.makedirs(os.path.join(d, "plain"), exist_ok=True)
        inc = ["-I" + sysconfig.get_path("include"), "-I" + sysconfig.get_path("platinclude")]
        import numpy

        ninc = ["-I" + numpy.get_include()]
        n = os.path.join(HERE, "native")
        # the simulator must not throw from what the extensions think cannot throw: same compiler, same ABI
        jobs = [
            ["g++", "-std=c++17", "-O2", "-g1", "-fPIC", "-shared", "-fno-access-control", n + "/simrt.cpp", "-o",
             d + "/libsimrt.so", "-ldl", "-lpthread"],
            ["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-w"] + inc + ninc + [n + "/npmem.cpp", "-o", d + "/npmem.so", "-ldl"],
        ]
        wl = ["-Wl,--wrap=" + w for w in wraps()]
        for name, srcs, incs, flags, macros in extensions():
            common = ["-fPIC", "-w", "-DNDEBUG", "-fno-strict-overflow", "-fwrapv"] + flags + macros + ["-I" + i for i in incs] + inc + ninc
            jobs.append(["g++"] + common + ["-O2", "-shared"] + srcs + ["-o", f"{d}/plain/{name}.so", "-lpthread"])
            objs = []
            for i, s in enumerate(srcs):
                objs.append((["g++"] + common + ["-O1", "-g1", "-fno-inline-functions-called-once", "-fsanitize=thread", "-c", s, "-o",
                                                 f"{d}/sim/{name}.{i}.o"], f"{d}/sim/{name}.{i}.o"))
            jobs.append([c for c, _ in objs] + [["g++", "-shared"] + [o for _, o in objs] + ["-o", f"{d}/sim/{name}.so"] + wl + ["-lpthread", "-ldl"]])

        def job(j):
            if isinstance(j[0], list):
                for c in j:
                    run(c)
            else:
                run(j)

        with ThreadPoolExecutor(8) as ex:
            for _ in ex.map(job, jobs):
                pass
        for o in glob.glob(d + "/sim/*.o"):
            os.unlink(o)
        open(os.path.join(d, "ok"), "w").close()
        prune(d)
    return d


def prune(keep):
    """Old builds go, newest three stay."""
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
    ds = sorted((x for x in ds if os.path.isdir(x)), key=os.path.getmtime, reverse=True)
    import shutil

    for x in ds[6:]:
        if x != keep:
            with contextlib.suppress(OSError):
                shutil.rmtree(x)


ENV = {
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "NUMEXPR_NUM_THREADS": "1",
}


def install_finder(d, variant, block=()):
    """Imports the extensions from the build 'd' (variant 'sim' or 'plain'); names in 'block' are not there."""
    import importlib.abc
    import importlib.machinery
    import importlib.util

    names = {f[:-3] for f in os.listdir(os.path.join(d, variant)) if f.endswith(".so")}

    class Finder(importlib.abc.MetaPathFinder):
        blocked = set(block)

        def find_spec(self, name, path=None, target=None):
            if name in self.blocked:
                raise ImportError(f"No module named '{name}' (simulated)", name=name)
            if name in names:
                f = os.path.join(d, variant, name + ".so")
                return importlib.util.spec_from_file_location(name, f, loader=importlib.machinery.ExtensionFileLoader(name, f))
            return None

    f = Finder()
    sys.meta_path.insert(0, f)
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    return f


if __name__ == "__main__":
    print(build())
