"""C15: the modified Merton simulation delivers all its figures or raises."""
import contextlib
import errno
import io
import os
import random
import resource
import shutil
import sys
import tempfile
import zlib

from dst import est, native, pysim

NATIVE = False
TIMEOUT = 120
HANG_IS_VIOLATION = True
RULE = ("Seeded sequences of simulations into new, used, missing, relative, Path and default directories (the current one, which changes) under seeded process settings, with figure files whose opening, "
        "n-th write or closing fails, whose disk fills up, whose writes are short, whose size the kernel limits, and with interrupts; a simulation without faults follows. One that returns must have written exactly the figures of a "
        "fault-free one, byte for byte, in its directory and nothing elsewhere, and printed the same table; one whose file was hurt must raise; settings must be as before. "
        "Non-trivial: a fault or an interrupt fired or simulations were repeated.")
MEASURE = "sequence of directories and faults with the file and write each struck, the place of each interrupt and the outcomes"
REAL = ["frds.measures.modified_merton.mod_merton_simulation and what it calls", "matplotlib with its pdf backend", "scipy.optimize.fsolve", "files below the simulated raw file, in a scratch directory"]
STUB = ["the lookup tables and their interpolation, computed once by the real code and then remembered", "the raw files of the figures (errors, short writes, full disk)", "delivery of signals"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["interrupts arrive in frds and where it enters matplotlib.pyplot or writes a file, not inside matplotlib", "the date in the files is fixed (SOURCE_DATE_EPOCH)"]
COUNT = {"quick": 280, "thorough": 3600}
NSIM = 40
REF = None
M = None
WANT = ["figure2", "figure3", "figure4", "figure5_panel_a", "figure5_panel_b"]


def memo(mod, name):
    import importlib
    import pickle

    m = importlib.import_module(mod)
    f = getattr(m, name, None)
    if f is None:
        return
    c = {}

    def g(*a, **k):
        key = pickle.dumps((a, k))
        if key not in c:
            c[key] = pickle.dumps(f(*a, **k))
        return pickle.loads(c[key])

    setattr(m, name, g)


def listing(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def prepare(bdir):
    global REF, M
    os.environ["SOURCE_DATE_EPOCH"] = "1600000000"
    os.environ["MPLBACKEND"] = "Agg"
    est.prepare(bdir, deliver=("/matplotlib/pyplot.py",))
    pysim.STARTS = ("/matplotlib/",)
    p = "frds.measures.modified_merton."
    for n in ("mod_merton_create_lookup", "mod_single_merton_create_lookup"):
        memo(p + n, n)
    memo("scipy.interpolate", "griddata")
    import matplotlib.pyplot as plt

    d = tempfile.mkdtemp(prefix="verif-c15-")
    cwd = os.getcwd()
    try:
        import frds.measures.modified_merton.mod_merton_simulation as M

        os.chdir(d)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            M.simulate(NSIM, d)
        REF = {"files": listing(d), "out": out.getvalue()}
    except Exception as e:  # noqa
        REF = {"error": f"{type(e).__name__}: {e}"}
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        plt.close("all")


# ------------------------------------------------------------------ generation
def gen_file(rng):
    k = rng.choice(["open", "write", "write", "write", "full", "full", "close", "short"])
    p = {"at": rng.randrange(5)}
    if k == "open":
        p["open"] = rng.choice(["EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO"])
    elif k == "write":
        p["write"] = [rng.choice([0, 0, 1, 2, 3, 5, 100]), rng.choice(["EIO", "ENOSPC", "KeyboardInterrupt", "MemoryError", "EDQUOT"])]
    elif k == "full":
        p["full"] = rng.choice([0, 1, 100, 4096, 8192, 9000, 11000, 12288, rng.randrange(18000)])
    elif k == "close":
        p["close"] = rng.choice(["EIO", "ENOSPC", "EDQUOT"])
    if k == "short" or rng.random() < 0.3:
        p["short"] = rng.choice([1, 100, 1000, 4095])
    return p


def generate(seed):
    rng = random.Random(f"C15/{seed}")
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        r = {"dir": rng.choice(["default", "default", "absolute", "absolute", "relative", "path", "missing", "odd name"]), "cwd": rng.randrange(2), "stale": rng.random() < 0.3}
        x = rng.random()
        if x < 0.65:
            r["files"] = [gen_file(rng) for _ in range(rng.choice([1, 1, 2]))]
        elif x < 0.75:
            r["limit"] = rng.choice([rng.randrange(18000), rng.randrange(11000, 17200)])
        elif x < 0.95:
            r["fault"] = {**pysim.gen_fault(rng), "m": rng.choice([3, 12, 30, 60])}
        runs.append(r)
    runs.append({"dir": rng.choice(["default", runs[0]["dir"].replace("missing", "default")]), "cwd": rng.randrange(2), "stale": False})
    return {"seed": seed, "runs": runs, "filters": [[rng.choice(["ignore", "default", "always", "once"]), rng.choice(["RuntimeWarning", "UserWarning", "DeprecationWarning"])] for _ in range(rng.choice([0, 1, 3]))],
            "fp": [rng.choice(["warn", "ignore"]) for _ in range(4)], "state": rng.getrandbits(20), "user": rng.random() < 0.3}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ the simulated files
def err(name):
    if name in ("KeyboardInterrupt", "MemoryError"):
        return {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[name]("simulated")
    n = getattr(errno, name)
    return OSError(n, os.strerror(n))


class Raw(io.RawIOBase):
    """A file open for writing, on a disk that may fail."""

    def __init__(self, sim, path, mode, plan):
        self.sim, self.name, self.plan, self.mode = sim, path, plan, mode
        self.f = None if mode == "fd-w" else io.FileIO(path, mode.replace("b", "").replace("t", ""))
        self.writes = self.size = 0
        self.hit = None

    def adopt(self, fd):
        self.f = io.FileIO(fd, "w")

    def fileno(self):
        if self.mode != "fd-w":
            raise io.UnsupportedOperation("fileno")
        return self.f.fileno()

    def fault(self, what, name):
        self.hit = f"{what} of {os.path.basename(self.name)} fails ({name})"
        self.sim.faults[f"{what} fails: {name}"] += 1
        raise err(name)

    def writable(self):
        return True

    def readable(self):
        return self.f.readable()

    def seekable(self):
        return True

    def readinto(self, b):
        return self.f.readinto(b)

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def write(self, b):
        b = bytes(b)
        p = self.plan
        self.writes += 1
        if p.get("write") and self.writes - 1 == p["write"][0]:
            self.fault("write", p["write"][1])
        n = len(b)
        if p.get("short") and n > p["short"] and self.writes < 300:
            self.sim.faults["short write"] += 1
            n = p["short"]
        if p.get("full") is not None:
            n = min(n, p["full"] - self.size)
            if n <= 0 and b:
                self.fault("write", "ENOSPC")
        n = self.f.write(b[:n])
        self.size += n
        return n

    def close(self):
        if not self.closed:
            super().close()
            self.f.close()
            if self.plan.get("close"):
                self.fault("close", self.plan["close"])


# ------------------------------------------------------------------ execution
def execute(sc):
    st, v = native.in_fork(lambda: run(sc))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def run(sc):
    import pathlib
    import warnings

    np = est.np
    if "error" in REF:
        return {"violations": [{"kind": "unexpected exception", "detail": "a simulation without faults raises " + REF["error"]}], "stats": {"runs": 1}}
    miss = [w for w in WANT if not any(os.path.basename(f).startswith(w) for f in REF["files"])]
    if miss:
        return {"violations": [{"kind": "figures missing", "detail": f"a simulation without faults delivers only {sorted(REF['files'])}"}], "stats": {"runs": 1}}
    sim = pysim.Sim({"mode": "none", "budget": 20_000_000})
    sys.stderr = open(os.devnull, "w")
    for a, c in sc["filters"]:
        warnings.filterwarnings(a, category=getattr(__import__("builtins"), c))
    np.random.seed(sc["state"])
    random.seed(sc["state"])
    if sc["user"]:
        import matplotlib.pyplot as plt

        plt.figure()
        plt.subplot(2, 1, 1)
        plt.plot([1, 2])
    top = tempfile.mkdtemp(prefix="verif-c15-")
    old = os.getcwd()
    viol, trace = [], []
    probes = {"figures compared": 0, "simulations that raised": 0, "simulations that returned": 0}

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": detail[:1000]})

    def go(n, r):
        cwd = os.path.join(top, f"cwd{r['cwd']}")
        os.chdir(cwd)
        d = {"default": None, "absolute": os.path.join(top, "abs"), "relative": os.path.join("sub", "figs"), "path": pathlib.Path(top) / "abs", "missing": os.path.join(top, "missing"),
             "odd name": os.path.join(top, "with space %s ü.pdf")}[r["dir"]]
        full = cwd if d is None else os.path.join(cwd, os.fspath(d))
        if r["dir"] != "missing":
            os.makedirs(full, exist_ok=True)
        if r["stale"] and os.path.isdir(full):
            for f in REF["files"]:
                with open(os.path.join(full, f), "wb") as h:
                    h.write(b"stale " * 20000)
        before_files = listing(top)
        opened = []

        def policy(path, mode, real):
            if not any(c in mode for c in "wax+"):
                return None
            p = os.path.join(cwd, path)
            k = len(opened)
            plan = {}
            for f in r.get("files") or ():
                if f["at"] == k:
                    plan.update(f)
            if plan.get("open"):
                opened.append((p, None, f"opening of {os.path.basename(p)} fails ({plan['open']})"))
                sim.faults["open fails: " + plan["open"]] += 1
                return err(plan["open"])
            if not os.path.realpath(p).startswith(os.path.realpath(top) + os.sep):
                # outside the scratch directory: only noted
                opened.append((p, None, None))
                return None if mode == "fd-w" else io.BytesIO() if "b" in mode else io.StringIO()
            raw = Raw(sim, p, mode, plan)
            opened.append((p, raw, None))
            f = io.BufferedWriter(raw) if "+" not in mode else io.BufferedRandom(raw)
            return f if "b" in mode or mode == "fd-w" else io.TextIOWrapper(f, write_through=True)

        before = pysim.settings()
        pysim.OPEN_POLICY = policy
        me = sim.begin(n, dict(r["fault"]) if r.get("fault") else None)
        out = io.StringIO()
        raised = None
        limit = resource.getrlimit(resource.RLIMIT_FSIZE)
        try:
            if r.get("limit") is not None:  # the kernel's own, whichever way files are written
                resource.setrlimit(resource.RLIMIT_FSIZE, (r["limit"], limit[1]))
            with contextlib.redirect_stdout(out):
                M.simulate(NSIM, d) if d is not None else M.simulate(NSIM)
        except pysim.Deadlock:
            raise
        except BaseException as e:  # noqa
            raised = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, limit)
        fired = me.fired
        sim.begin(-1)
        pysim.OPEN_POLICY = None
        import gc

        if raised is not None:
            raised.__traceback__ = None
        gc.collect()
        for _, raw, _ in opened:
            if raw is not None and not raw.closed:
                with contextlib.suppress(BaseException):
                    raw.close()
        hurt = [h or (raw.hit if raw else None) for _, raw, h in opened]
        hurt = [h for h in hurt if h]
        if r.get("limit") is not None and max(len(f) for f in REF["files"].values()) > r["limit"]:
            hurt.append(f"files limited to {r['limit']} bytes")
            sim.faults["file size limit"] += 1
        after = listing(top)
        name = {k: os.path.relpath(os.path.join(full, k), top) for k in REF["files"]}
        trace.append([r["dir"], hurt, fired[2] if fired else "", type(raised).__name__ if raised else "returned"])
        who = f"simulation {n} (directory: {r['dir']}" + (f"; {hurt[0]}" if hurt else "") + (f"; interrupted at {fired[2]}" if fired else "") + ")"
        x = pysim.changed(before, pysim.settings())
        if x:
            bad("settings changed", f"{who}: {', '.join(x)} not as before")
        if np.geterr() != fp0:
            bad("settings changed", f"{who}: floating-point error handling is {np.geterr()}")
        else_ = [k for k in after if after[k] != before_files.get(k) and k not in name.values()] + [p for p, raw, h in opened if raw is None and not h]
        if else_:
            bad("written elsewhere", f"{who} writes {else_[:3]}")
        if raised is None:
            probes["simulations that returned"] += 1
            if hurt:
                bad("failed write not reported", f"{who} returns")
            for f, k in name.items():
                probes["figures compared"] += 1
                if k not in after:
                    bad("figures missing", f"{who} returns, and there is no {f}")
                elif after[k] != REF["files"][f]:
                    bad("figures not complete", f"{who} returns, and {f} is not that of a simulation without faults: {len(after[k])} bytes instead of {len(REF['files'][f])}")
            if out.getvalue() != REF["out"]:
                bad("another table", f"{who} prints another table than a simulation without faults: {out.getvalue()[:300]!r}")
        else:
            probes["simulations that raised"] += 1
            if not hurt and not fired and r["dir"] != "missing":
                bad("unexpected exception", f"{who} raises {type(raised).__name__}: {raised}")

    fp0 = None

    def body():
        nonlocal fp0
        np.seterr(divide=sc["fp"][0], over=sc["fp"][1], under=sc["fp"][2], invalid=sc["fp"][3])
        fp0 = np.geterr()
        for n, r in enumerate(sc["runs"]):
            go(n, r)
            if viol:
                return

    try:
        for k in ("cwd0", "cwd1"):
            os.makedirs(os.path.join(top, k))
        r = sim.run([body])
    finally:
        pysim.OPEN_POLICY = None
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)
    if sim.failed:
        viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
    elif r[0][0] == "raised":
        raise r[0][1]
    return {"violations": viol[:1],
            "stats": {"runs": len(trace), "steps": sim.events, "faults": dict(sim.faults), "probes": probes, "hashes": [format(zlib.crc32(repr(trace).encode()), "x")],
                      "nontrivial": bool(sim.faults) or len(trace) > 1, "key": repr(trace)},
            "summary": {"simulations": trace, "interrupts": sim.log}}


def reductions(sc):
    rs = sc["runs"]
    for k in range(len(rs)):
        if len(rs) > 1:
            yield {**sc, "runs": rs[:k] + rs[k + 1:]}
    for k, r in enumerate(rs):
        for x in ("fault", "files", "limit"):
            if r.get(x):
                yield {**sc, "runs": rs[:k] + [{a: b for a, b in r.items() if a != x}] + rs[k + 1:]}
        if len(r.get("files") or ()) > 1:
            for j in range(len(r["files"])):
                yield {**sc, "runs": rs[:k] + [{**r, "files": r["files"][:j] + r["files"][j + 1:]}] + rs[k + 1:]}
        if r["stale"]:
            yield {**sc, "runs": rs[:k] + [{**r, "stale": False}] + rs[k + 1:]}
        if r["dir"] != "absolute":
            yield {**sc, "runs": rs[:k] + [{**r, "dir": "absolute"}] + rs[k + 1:]}
    if sc["filters"]:
        yield {**sc, "filters": []}
    if sc["user"]:
        yield {**sc, "user": False}
