"""C11: the bundled stock returns are complete and right, or an error is raised."""
import errno
import io
import os
import random
import shutil
import sys
import tempfile
import zlib

from dst import build, est, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded programs of reads of the data set in one to four threads, in a process that has not read it before, from a simulated file: each opening of it may fail, "
        "its reads and seeks may fail or be short, its content may be truncated, torn, zeroed, overwritten or have bits flipped, and the reading may be interrupted; then the file is "
        "readable again. Files that the code writes are simulated to fail too, the process may end, and where it leaves files another process reads the data set after it. Every read must raise or give all dates, columns and values of the archive, as another reader (zipfile, csv, float) finds them; "
        "with the file readable it must not raise. Non-trivial: a fault fired or threads were switched during a read.")
MEASURE = "program shape with the faults of each opening, the place of each interrupt and every thread switch"
REAL = ["frds.datasets", "pandas, zipfile, zlib, io.BufferedReader"]
STUB = ["the raw file below io.BufferedReader (simulated: content, errors, short reads)", "thread switches", "delivery of signals"]
SIMTIME = "lines executed in frds and reads of the file; no clock"
ASSUMPTIONS = ["threads are switched between lines of frds and at reads of the file", "the frame that a read returns is not changed by its caller"]
COUNT = {"quick": 8000, "thorough": 100000}

NAME = "stocks_us.csv.zip"
REF = CONTENT = None
BOX = None  # holds a copy of the package and the directories for temporary and cached files
ERRNO = {"ENOENT": (FileNotFoundError, errno.ENOENT), "EACCES": (PermissionError, errno.EACCES), "EMFILE": (OSError, errno.EMFILE), "EIO": (OSError, errno.EIO),
         "ENOMEM": (OSError, errno.ENOMEM), "ESTALE": (OSError, errno.ESTALE), "EISDIR": (IsADirectoryError, errno.EISDIR)}


def prepare(bdir):
    import csv
    import datetime
    import zipfile

    global REF, CONTENT, BOX
    for d in os.listdir(build.BUILD):
        # of checks that have been ended
        if d.startswith("box-") and not os.path.exists("/proc/" + d[4:]):
            shutil.rmtree(os.path.join(build.BUILD, d), ignore_errors=True)
    BOX = os.path.join(build.BUILD, f"box-{os.getpid()}")
    shutil.copytree(os.path.join(build.REPO, "src", "frds"), os.path.join(BOX, "src", "frds"), ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    build.REPO, pysim.SRC = BOX, os.path.join(BOX, "src", "frds") + os.sep
    for k, v in (("HOME", "home"), ("TMPDIR", "tmp"), ("XDG_CACHE_HOME", "home/.cache"), ("XDG_DATA_HOME", "home/.local/share")):
        os.environ[k] = os.path.join(BOX, v)
        os.makedirs(os.environ[k], exist_ok=True)
    sys.dont_write_bytecode = True
    tempfile.tempdir = None
    est.prepare(bdir, measures=False, deliver=("/pandas/io/", "/zipfile/"))
    path = os.path.join(build.REPO, "src", "frds", "datasets", NAME)
    with open(path, "rb") as f:
        CONTENT = f.read()
    with zipfile.ZipFile(io.BytesIO(CONTENT)) as z:
        rows = list(csv.reader(io.StringIO(z.read(z.namelist()[0]).decode())))
    REF = {"columns": rows[0][1:], "dates": est.np.array([datetime.datetime.strptime(r[0], "%Y-%m-%d") for r in rows[1:]], dtype="datetime64[ns]"),
           "values": est.np.array([[float(x) if x else float("nan") for x in r[1:]] for r in rows[1:]])}
    import pandas  # noqa

    pandas.read_csv(io.BytesIO(CONTENT), compression="zip")  # imports what pandas imports late
    import frds.datasets  # noqa

    global BEFORE
    BEFORE = listing()


# ------------------------------------------------------------------ what is on the disk
BEFORE = {}


def listing():
    out = {}
    for d, dirs, files in os.walk(BOX):
        for f in files + dirs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            out[p] = (st.st_mode, st.st_ino) + (() if f in dirs else (st.st_size, st.st_mtime_ns))
    return out


def left_behind():
    now = listing()
    return [p for p in now if now[p] != BEFORE.get(p)] + [p for p in BEFORE if p not in now]


def clean():
    """Back to the disk as it was."""
    global BEFORE
    now = listing()
    for p in sorted(now, reverse=True):
        if p not in BEFORE:
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    if left_behind():
        new = os.path.join(BOX, "src", "frds")
        shutil.rmtree(new)
        shutil.copytree(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "frds"), new, ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        for p in BEFORE:
            if not os.path.exists(p):
                os.makedirs(p)
        BEFORE = listing()


class Full(io.FileIO):
    """A file that is written to, on a disk that may be full or fail."""

    def __init__(self, sim, path, mode, plan):
        super().__init__(path, mode)
        self.sim, self.plan, self.hit, self.done = sim, plan, False, 0

    def write(self, b):
        me = self.sim.me()
        if me is not None:
            me.minimised += 1
            self.sim.event(me, ("write", 0))
        left = self.plan["at"] - self.done
        if left < len(b):
            if left > 0:
                n = super().write(bytes(b)[:left])
                self.done += n
                return n
            self.hit = True
            self.sim.faults["write fails: " + self.plan["exc"]] += 1
            raise OSError(getattr(errno, self.plan["exc"]), os.strerror(getattr(errno, self.plan["exc"])), self.name)
        n = super().write(b)
        self.done += n
        return n


# ------------------------------------------------------------------ generation
def gen_content(rng):
    n = 134175
    what = rng.choice(["truncate", "truncate", "flip", "flip", "flip", "zero", "zero", "garbage", "empty", "zerotail", "text", "header"])
    where = rng.choice([rng.randrange(n), rng.randrange(120), n - 1 - rng.randrange(200), n - 1 - rng.randrange(30)])
    if what == "truncate":
        return ["truncate", rng.choice([where, n // 4096 * 4096, n - 1, n - 22])]
    if what == "flip":
        return ["flip", sorted({max(0, min(n - 1, where + rng.randrange(-3, 4))) * 8 + rng.randrange(8) for _ in range(rng.choice([1, 1, 1, 2, 5]))})]
    if what in ("zero", "garbage"):
        k = rng.choice([512, 4096])
        a = where // k * k
        return [what, a, k, rng.getrandbits(20)]
    if what == "zerotail":
        return ["zero", where, n - where, 0]
    if what == "header":
        return ["garbage", rng.choice([0, n - 22, n - 80]), 8, rng.getrandbits(20)]
    return [what]


def gen_open(rng):
    x = rng.random()
    if x < 0.2:
        return {"open": rng.choice(list(ERRNO) + ["MemoryError"])}
    p = {}
    if x < 0.45:
        p["read"] = [rng.choice([0, 1, 2, 3, 5, 8, 13, 16, 17, 20]), rng.choice(["EIO", "ESTALE", "MemoryError"])]
    elif x < 0.55:
        p["seek"] = [rng.choice([0, 1, 2, 3, 4, 6, 8]), "EIO"]
    elif x < 0.9:
        p["content"] = gen_content(rng)
    else:
        p["close"] = "EIO"
    if rng.random() < 0.3:
        p["short"] = rng.choice([1, 3, 16, 100, 4095])
    return p


def generate(seed):
    rng = random.Random(f"C11/{seed}")
    nt = rng.choice([1, 1, 2, 3, 4])
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = {"via": rng.choice(["StockReturns", "StockReturns", "new", "type"])}
            if rng.random() < 0.4:
                # after so many reads of the file, or after it was closed
                op["fault"] = {"lock": rng.random() < 0.1, **pysim.gen_fault(rng, after=(0, 0, 1, 8, 16, 100, 100)), "m": rng.choice([2, 5, 12, 30])}
            ops.append(op)
        threads.append(ops)
    opens = [gen_open(rng) if rng.random() < 0.7 else {"short": rng.choice([1, 7, 100])} if rng.random() < 0.3 else {} for _ in range(rng.choice([0, 1, 2, 3]))]
    if rng.random() < 0.1:
        # the process ends there
        for ops in threads:
            for op in ops:
                if op.get("fault"):
                    op["fault"]["exc"] = "end"
    writes = [{"at": rng.choice([0, 1, 4096, rng.randrange(400_000)]), "exc": rng.choice(["ENOSPC", "EIO", "EDQUOT"])} if rng.random() < 0.3 else None for _ in range(2)]
    return {"seed": seed, "threads": threads, "opens": opens, "writes": writes, "sched": pysim.gen_sched(rng, nt), "cwd": rng.random() < 0.2}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ the simulated file
def corrupt(b, c):
    if c[0] == "truncate":
        return b[:c[1]]
    if c[0] == "flip":
        b = bytearray(b)
        for k in c[1]:
            b[k // 8 % len(b)] ^= 1 << (k % 8)
        return bytes(b)
    if c[0] == "zero":
        return b[:c[1]] + b"\0" * (min(len(b), c[1] + c[2]) - c[1]) + b[c[1] + c[2]:]
    if c[0] == "garbage":
        n = min(len(b), c[1] + c[2]) - c[1]
        return b[:c[1]] + random.Random(c[3]).randbytes(n) + b[c[1] + c[2]:]
    if c[0] == "empty":
        return b""
    return b"<html><body>404 Not Found</body></html>"


def err(name):
    if name == "MemoryError":
        return MemoryError("simulated")
    t, n = ERRNO[name]
    return t(n, os.strerror(n))


class Raw(io.RawIOBase):
    def __init__(self, sim, content, plan, path):
        self.sim, self.c, self.plan, self.name = sim, content, plan, path
        self.pos, self.reads, self.seeks = 0, 0, 0
        self.hit = False

    def fault(self, what, name):
        self.hit = True
        self.sim.faults[f"{what} fails: {name}"] += 1
        raise err(name)

    def readable(self):
        return True

    def seekable(self):
        return True

    def tick(self, where):
        me = self.sim.me()
        if me is not None:
            me.minimised += 1
            self.sim.event(me, (where, 0))

    def readinto(self, b):
        self.tick("read")
        p = self.plan.get("read")
        self.reads += 1
        if p and self.reads - 1 == p[0]:
            self.fault("read", p[1])
        n = len(b)
        if self.plan.get("short"):
            k = self.plan["short"]
            if n > k:
                self.sim.faults["short read"] += 1
                n = max(k, n // 3) if self.reads > 200 else k
        d = self.c[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def seek(self, off, whence=0):
        self.tick("seek")
        p = self.plan.get("seek")
        self.seeks += 1
        if p and self.seeks - 1 == p[0]:
            self.fault("seek", p[1])
        pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.c) + off
        if pos < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def close(self):
        me = self.sim.me()
        if me is not None and not self.closed:
            me.minimised += 100
        if not self.closed and self.plan.get("close"):
            super().close()
            self.sim.faults["close fails"] += 1
            self.hit = True
            raise err(self.plan["close"])
        super().close()


# ------------------------------------------------------------------ execution
def compare(f):
    """None, or how a frame differs from the archive."""
    np = est.np
    if not hasattr(f, "columns") or not hasattr(f, "index"):
        return f"it is {f!r}"[:200]
    if list(f.columns) != REF["columns"]:
        return f"columns {list(f.columns)}"[:200]
    if len(f) != len(REF["dates"]):
        return f"{len(f)} of {len(REF['dates'])} days"
    if getattr(f.index.dtype, "kind", "") != "M":
        return f"the index is {f.index!r}"[:200]
    d = f.index.to_numpy().astype("datetime64[ns]")
    if not np.array_equal(d, REF["dates"]):
        i = int(np.argmax(d != REF["dates"]))
        return f"date {d[i]} instead of {REF['dates'][i]} at {i}"
    v = f.to_numpy()
    if v.dtype != np.float64:
        return f"values of type {v.dtype}"
    if not np.allclose(v, REF["values"], rtol=1e-12, atol=0, equal_nan=True):
        i, j = np.argwhere(~np.isclose(v, REF["values"], rtol=1e-12, atol=0, equal_nan=True))[0]
        return f"{v[i, j]!r} instead of {REF['values'][i, j]!r} on {str(d[i])[:10]} for {REF['columns'][j]}"
    return None


def execute(sc):
    try:
        return lives(sc)
    finally:
        clean()


def lives(sc):
    st, v = native.in_fork(lambda: run(sc))
    ended = st != "ok" and v["how"] == f"exit {pysim.ENDED}"
    if ended:
        v = {"violations": [], "stats": {"runs": 1, "faults": {"the process ends": 1}, "hashes": [format(zlib.crc32(repr(sc).encode()), "x")], "nontrivial": True, "key": repr(sc)},
             "summary": {"reads": "the process ended"}}
    if st == "ok" or ended:
        left = left_behind()
        if left and not v["violations"]:
            # another process reads the data set
            st, w = native.in_fork(lambda: run({**sc, "threads": [], "opens": [], "writes": [], "sched": {"mode": "none"}, "record": False, "cwd": False}))
            if st == "ok":
                for x in w["violations"]:
                    v["violations"].append({"kind": x["kind"], "detail": f"in another process afterwards, with {', '.join(os.path.relpath(p, BOX) for p in left)[:300]} left by the first: {x['detail']}"})
                v["stats"]["runs"] += 1
                v["stats"].setdefault("probes", {})["reads in another process afterwards"] = 2
                return v
        else:
            return v
        v = w
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def run(sc):
    import warnings

    warnings.simplefilter("ignore")
    sim = pysim.Sim({**sc["sched"], "budget": 1_000_000})
    import frds.datasets

    mod = sys.modules[type(frds.datasets.StockReturns).__module__]

    opened, viol, trace, written = [], [], [], []
    calm = [False]

    def policy(path, mode, real):
        if any(c in mode for c in "wax+"):
            if not os.path.abspath(path).startswith(BOX + os.sep) or "+" in mode or mode.startswith("fd"):
                return None
            me = sim.me()
            plan = sc["writes"][len(written)] if len(written) < len(sc.get("writes", ())) and not calm[0] else None
            written.append(path)
            sim.event(me, ("open", 0))
            if not plan:
                return None
            raw = Full(sim, path, mode.replace("b", "").replace("t", ""), plan)
            opened.append((me.tid, raw, {"write": plan}))
            f = io.BufferedWriter(raw, 8192)
            return f if "b" in mode else io.TextIOWrapper(f)
        if os.path.basename(path) != NAME:
            return None
        me = sim.me()
        n = sum(not (p or {}).get("write") for _, _, p in opened)
        plan = sc["opens"][n] if n < len(sc["opens"]) and not calm[0] else {}
        sim.event(me, ("open", 0))
        if plan.get("open"):
            opened.append((me.tid, None, plan))
            sim.faults["open fails: " + plan["open"]] += 1
            return err(plan["open"])
        b = CONTENT
        if plan.get("content"):
            b = corrupt(CONTENT, plan["content"])
            if b != CONTENT:
                sim.faults["content: " + plan["content"][0]] += 1
        raw = Raw(sim, b, plan, path)
        raw.hit = b != CONTENT
        opened.append((me.tid, raw, plan))
        f = io.BufferedReader(raw, 8192)
        return io.TextIOWrapper(f) if "b" not in mode else f

    def read(via):
        if via == "new":
            return getattr(mod, "_StockReturns", type(frds.datasets.StockReturns))().stocks_us
        if via == "type":
            return type(frds.datasets.StockReturns)().stocks_us
        return frds.datasets.StockReturns.stocks_us

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": detail[:1000]})

    def one(k, n, op):
        a = len(opened)
        me = sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
        raised = f = None
        try:
            f = read(op["via"])
        except pysim.Deadlock:
            raise
        except BaseException as e:  # noqa
            raised = e
        fired = me.fired
        sim.begin(-1)
        mine = [(r, p) for t, r, p in opened[a:] if t == me.tid]
        hurt = any(r is None or r.hit for r, p in mine)
        what = "; ".join(str(p) for r, p in mine if p) + (f"; interrupted at {fired[2]}" if fired else "")
        trace.append([k, op["via"], type(raised).__name__ if raised else "data", what])
        who = f"thread {k}, read {n}" + (f" ({what})" if what else "")
        if raised is None:
            d = compare(f)
            if d:
                bad("wrong data", f"{who} returns {d}")
        elif not fired and not hurt:
            # another thread's failure may be this one's if they read together
            if not any(r is None or r.hit for _, r, p in opened[min(a, first.get(k, a)):]) and not any_fired():
                bad("unexpected exception", f"{who}: the file is readable, it raises {type(raised).__name__}: {raised}")

    first = {}

    def any_fired():
        return len(sc["threads"]) > 1 and bool(sim.log)

    def body(k):
        def go():
            for n, op in enumerate(sc["threads"][k]):
                one(k, n, op)

        return go

    cwd = os.getcwd()
    d = None
    if sc["cwd"]:
        d = tempfile.mkdtemp(prefix="verif-c11-")
        with open(os.path.join(d, NAME), "wb") as f:
            f.write(b"another file")
        os.chdir(d)
    try:
        pysim.OPEN_POLICY = policy
        r = sim.run([body(k) for k in range(len(sc["threads"]))]) if sc["threads"] else []
        if sim.failed:
            viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
        else:
            for x in r:
                if x[0] == "raised":
                    raise x[1]
            # the file is readable again
            calm[0] = True
            n = len(opened)
            s2 = sim
            sim = pysim.Sim({"mode": "none", "budget": 1_000_000})
            sim.log, sim.faults = s2.log, s2.faults
            r = sim.run([lambda: [one("last", i, {"via": v}) for i, v in enumerate(["StockReturns", "new"])]])
            if sim.failed:
                viol.append({"kind": sim.failed[0], "detail": "with the file readable again: " + sim.failed[1]})
            elif r[0][0] == "raised":
                raise r[0][1]
            elif trace[-1][2] != "data" or trace[-2][2] != "data":
                bad("no later read", f"with the file readable again the data set still raises {trace[-2][2]}, {trace[-1][2]}; before: {trace[:-2]}")
            sim, n = s2, n
    finally:
        pysim.OPEN_POLICY = None
        os.chdir(cwd)
        if d:
            shutil.rmtree(d)
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults),
                      "probes": {"reads": len(trace), "openings of the file": len(opened), "reads that raised": sum(t[2] != "data" for t in trace), "thread switches": len(sim.switches)},
                      "hashes": [format(sim.h, "x") + format(zlib.crc32(repr(trace).encode()), "x")], "nontrivial": bool(sim.faults) or len(sim.switches) > 2 * len(sc["threads"]),
                      "key": repr(sim.h) + repr(trace)},
            "summary": {"reads": trace, "interrupts": sim.log, "switches": len(sim.switches)},
            "script": sim.switches if sc.get("record") else None}


def pin(sc, r):
    if not r.get("script"):
        return None
    return {**sc, "script": r["script"], "sched": {"mode": "gap", "script": r["script"], "seed": 0}}


def reductions(sc):
    th = sc["threads"]
    for k in range(len(th)):
        if len(th) > 1:
            yield {**sc, "threads": th[:k] + th[k + 1:]}
    for k in range(len(sc["opens"])):
        yield {**sc, "opens": sc["opens"][:k] + sc["opens"][k + 1:]}
    for k, t in enumerate(th):
        for n in range(len(t)):
            if len(t) > 1:
                yield {**sc, "threads": th[:k] + [t[:n] + t[n + 1:]] + th[k + 1:]}
            if t[n].get("fault"):
                yield {**sc, "threads": th[:k] + [t[:n] + [{"via": t[n]["via"]}] + t[n + 1:]] + th[k + 1:]}
    for k, o in enumerate(sc["opens"]):
        for x in o:
            yield {**sc, "opens": sc["opens"][:k] + [{a: b for a, b in o.items() if a != x}] + sc["opens"][k + 1:]}
    for k, w in enumerate(sc.get("writes", ())):
        if w:
            yield {**sc, "writes": sc["writes"][:k] + [None] + sc["writes"][k + 1:]}
    if sc["cwd"]:
        yield {**sc, "cwd": False}
