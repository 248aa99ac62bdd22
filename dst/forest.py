"""Tables, calls and simulated runs of the isolation forest, shared by C01-C04."""
import math
import random

from dst import build, native

np = pd = anomaly_scores = npmem = None


def prepare(bdir):
    """In the zygote: import everything, with the extensions built for the simulator."""
    global np, pd, anomaly_scores, npmem
    build.install_finder(bdir, "sim")
    import importlib.machinery
    import importlib.util

    import numpy
    import pandas

    spec = importlib.util.spec_from_file_location(
        "npmem", bdir + "/npmem.so", loader=importlib.machinery.ExtensionFileLoader("npmem", bdir + "/npmem.so"))
    npmem = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(npmem)
    np, pd = numpy, pandas
    import frds.algorithms.isolation_forest as m

    anomaly_scores = m.anomaly_scores
    # warm up lazily imported parts of pandas and numpy
    pd.DataFrame({"a": [1.0, 2.0], "t": ["x", "y"]}).select_dtypes(include=[object]).to_numpy(dtype=np.bytes_)


# ------------------------------------------------------------------ tables
WORDS = ["a", "b", "ab", "ba", "abc", "abd", "zz", "hello", "world", "0", "10", "9", "", "aaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaab"]


def gen_column(rng, kind, n, name):
    if kind == "f8":
        style = rng.choice(["normal", "ties", "nan", "inf", "const", "grid", "allnan", "close"] if rng.random() < 0.5 else ["normal", "ties", "nan"])
        if style == "normal":
            v = [rng.gauss(0, 1) for _ in range(n)]
        elif style == "ties":
            k = rng.randint(1, 4)
            v = [float(rng.randint(0, k)) for _ in range(n)]
        elif style == "nan":
            p = rng.choice([0.1, 0.4, 0.8])
            v = [math.nan if rng.random() < p else float(rng.randint(-5, 5)) for _ in range(n)]
        elif style == "inf":
            v = [rng.choice([math.inf, -math.inf, 0.0, -0.0, 1.0, rng.gauss(0, 1e300), math.nan]) for _ in range(n)]
        elif style == "close":
            # equal in their first 24 bits or more
            b, d = rng.choice([(1.0, 2.0 ** -52), (1.0, 2.0 ** -30), (2.0 ** 24, 1.0), (1e9, 0.5), (2.0 ** 52, 1.0), (-1e12, 0.25), (0.0, 5e-324), (0.0, 1e-200)])
            v = [b + d * rng.randint(0, 20) for _ in range(n)]
        elif style == "const":
            c = rng.choice([0.0, 1.5, -3.0])
            v = [c] * n
        elif style == "allnan":
            v = [math.nan] * n
        else:
            v = [float(i) for i in range(n)]
            rng.shuffle(v)
    elif kind == "f4":
        v = [float(rng.randint(-50, 50)) / 4 for _ in range(n)]
    elif kind == "i8":
        big = rng.choice([0, 0, 2**31 - 5, -(2**31) - 5, 2**32 - 5, 2**52]) if rng.random() < 0.3 else None
        v = [rng.choice([rng.randint(-3, 3), rng.randint(-10**9, 10**9)]) if big is None else big + rng.randint(0, 10) for _ in range(n)]
    elif kind == "bool":
        v = [rng.random() < 0.5 for _ in range(n)]
    elif kind == "dt":
        v = [rng.randint(0, 10**6) for _ in range(n)]
    elif kind == "cat":
        v = [rng.choice("xyz") for _ in range(n)]
    else:  # text
        style = rng.choice(["words", "numbers", "same length", "full", "words", "numbers", "same length", "full", "long"])
        if style == "words":
            w = rng.sample(WORDS, rng.randint(1, len(WORDS)))
            v = [rng.choice(w) for _ in range(n)]
        elif style == "numbers":
            v = [str(rng.randint(0, 999)) for _ in range(n)]
        elif style == "same length":
            L = rng.choice([1, 2, 8])
            v = ["".join(rng.choice("ab") for _ in range(L)) for _ in range(n)]
        elif style == "long":
            # long texts that differ in few places, early, late or in their length only
            L = rng.choice([15, 31, 63, 64, 127, 255, 256, 300])
            at = rng.choice([0, L // 2, L - 1])
            v = []
            for _ in range(n):
                s = "p" * at + rng.choice("abcd") + "q" * (L - 1 - at) + (rng.choice(["", "", "a", "b", "cc"]) if rng.random() < 0.5 else "")
                v.append(s)
        else:
            v = ["".join(rng.choice("xyz") for _ in range(rng.randint(0, 9))) for _ in range(n)]
    return {"name": name, "kind": kind, "v": v}


def gen_table(rng, n=None, kinds=None, others=True):
    if n is None:
        n = rng.choice([1, 2, 3, 5, 8, 13, 16, 17, 24, 32, 33, 40]) if rng.random() < 0.8 else rng.randint(1, 64)
    if kinds is None:
        k = rng.randint(1, 4)
        kinds = [rng.choice(["f8", "f8", "f8", "i8", "f4", "txt", "txt"]) for _ in range(k)]
        if others and rng.random() < 0.3:
            kinds.insert(rng.randint(0, len(kinds)), rng.choice(["bool", "dt", "cat"]))
    cols = [gen_column(rng, kd, n, f"c{i}") for i, kd in enumerate(kinds)]
    style = rng.choice(["range", "shuffled", "labels", "dup", "dates"])
    if style == "range":
        idx = list(range(n))
    elif style == "shuffled":
        idx = list(range(100, 100 + n))
        rng.shuffle(idx)
    elif style == "labels":
        idx = [f"r{i}" for i in range(n)]
        rng.shuffle(idx)
    elif style == "dates":
        idx = [f"2020-{1 + i // 28 % 12:02d}-{1 + i % 28:02d}" for i in range(n)]
    else:
        idx = [rng.randint(0, 3) for _ in range(n)]
    return {"cols": cols, "index": idx, "layout": rng.choice(["dict", "block", "fortran", "insert", "strided", "dict"])}


def make(t):
    """The DataFrame of a table, with a handle on the arrays that may share its memory."""
    n = len(t["index"])
    arrs, handles = {}, []

    def arr(c):
        k, v = c["kind"], c["v"]
        if k == "f8":
            return np.array(v, dtype=np.float64)
        if k == "f4":
            return np.array(v, dtype=np.float32)
        if k == "i8":
            return np.array(v, dtype=np.int64)
        if k == "bool":
            return np.array(v, dtype=bool)
        if k == "dt":
            return np.array(v, dtype="datetime64[s]").astype("datetime64[ns]")
        if k == "cat":
            return pd.Categorical(v)
        a = np.empty(n, dtype=object)
        a[:] = v
        return a

    lay = t["layout"]
    if lay in ("block", "fortran") and all(c["kind"] == "f8" for c in t["cols"]) and t["cols"]:
        m = np.array([c["v"] for c in t["cols"]], dtype=np.float64).reshape(len(t["cols"]), n)
        m = np.asfortranarray(m.T) if lay == "fortran" else np.ascontiguousarray(m.T)
        df = pd.DataFrame(m, columns=[c["name"] for c in t["cols"]], copy=False)
        handles.append(m)
    elif lay == "strided":
        big = {}
        for c in t["cols"]:
            a = arr(c)
            if c["kind"] == "cat":
                b = pd.Categorical(np.repeat(np.asarray(a), 2))
            else:
                b = np.repeat(a, 2)
                if c["kind"] == "f8" and n:
                    b[1::2] = 99.0
            big[c["name"]] = b
        df = pd.DataFrame(big, index=range(2 * n)).iloc[::2]
    else:
        df = pd.DataFrame(index=range(n))
        for c in t["cols"]:
            a = arr(c)
            arrs[c["name"]] = a
            if lay == "insert":
                df[c["name"]] = a
        if lay != "insert":
            df = pd.DataFrame(arrs, index=range(n))
    df = df.copy() if lay == "dict" and n % 2 else df
    df.index = pd.Index(t["index"])
    return df, handles


def digest(df):
    """Identity of the content of a DataFrame, for 'the caller's table is unchanged'."""
    out = [list(map(str, df.columns)), list(map(str, df.index)), [str(x) for x in df.dtypes]]
    for c in range(df.shape[1]):
        out.append([repr(x) for x in df.iloc[:, c].tolist()])
    return repr(out)


# ------------------------------------------------------------------ calls
def gen_call(rng, ntables=1, tree_one=True):
    f = rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 16]) if rng.random() < 0.85 else rng.randint(1, 30)
    m = rng.choice([2, 3, 4, 5, 8, 16, 16, 31, 32, 64, 256])
    if tree_one and rng.random() < 0.03:
        m = 1
    return {"t": rng.randrange(ntables), "forest": f, "tree": m, "seed": rng.choice([0, 1, 2, 3, 7, 42, 1021, rng.randint(0, 10**6)]),
            "exclude": [], "name": "AnomalyScore"}


def call(df, op):
    kw = {}
    if op.get("exclude"):
        kw["exclude_cols"] = list(op["exclude"])
    try:
        r = anomaly_scores(df, forest_size=op["forest"], tree_size=op["tree"], random_seed=op["seed"], name=op["name"], **kw)
    except Exception as e:  # noqa
        return ["raised", type(e).__name__]
    if list(r.columns) != [op["name"]]:
        return ["ok", [], "columns " + repr(list(r.columns))]
    same = len(r.index) == len(df.index) and all(a == b for a, b in zip(r.index.tolist(), df.index.tolist()))
    return ["ok", [float(x).hex() for x in r[op["name"]].to_numpy()], "" if same else "index labels differ"]


def gen_big(rng, sched, rows=(65, 100, 128, 129, 200, 257, 300, 513, 1000, 1025, 2049)):
    """A table, a call and a schedule with one size beyond the usual ones."""
    style = rng.choice(["rows", "rows", "trees", "columns", "workers"])
    sched.update(mean=max(sched["mean"], rng.choice([300, 1000, 20000])), conflict_pm=min(sched["conflict_pm"], 20))
    kinds = [rng.choice(["f8", "f8", "txt", "i8"]) for _ in range(rng.choice([1, 1, 2]))]
    op = gen_call(rng, tree_one=False)
    if style == "rows":
        n = rng.choice(rows)
        op.update(forest=rng.choice([1, 2, 3, 5]), tree=rng.choice([8, 16, 64, 256, 256, 300, 1000]))
    elif style == "trees":
        n = rng.choice([2, 3, 5, 8, 12])
        op.update(forest=rng.choice([33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 1000]), tree=rng.choice([2, 3, 4, 8]))
    elif style == "columns":
        n = rng.choice([4, 8, 12])
        kinds = [rng.choice(["f8", "f8", "txt", "i8"]) for _ in range(rng.choice([17, 33, 40, 65, 70]))]
        op.update(forest=rng.choice([3, 5, 9]), tree=8)
    else:
        n = rng.choice([5, 20, 65, 130, 260])
        op.update(forest=rng.choice([5, 64, 65, 130, 200]), tree=8)
        sched["ncpu"] = rng.choice([32, 64, 65, 128, 129, 200])
    return gen_table(rng, n=n, kinds=kinds, others=False), op


REF = dict(ncpu=1, mode=0, heap_fill=-1, heap_shift=0, seed=1)


def reference(tables, op):
    """What the call returns in a fresh process, on one processor, with nothing else going on."""

    def run():
        def caller():
            npmem.install()
            df, _ = make(tables[op["t"]])
            return call(df, op)

        r, o = native.simulate([caller], REF)
        if r[0][0] != "ok":
            raise r[0][1]
        return r[0][1], o["steps"]

    st, v = native.in_fork(run)
    if st != "ok":
        return ["died", v["how"]], 0
    return v[0], v[1]


def gen_sched(rng, est=100_000, py=1):
    mode = 1 if rng.random() < 0.7 else 2
    return {
        "seed": rng.getrandbits(40), "mode": mode, "mean": rng.choice([2, 10, 50, 200, 1000, 20000]),
        "conflict_pm": rng.choice([0, 0, 20, 200, 1000]), "depth": rng.randint(1, 30), "length": est,
        "ncpu": rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 12, 16, 33]),
        "heap_fill": rng.choice([-1, -2, rng.getrandbits(30) + 1, rng.getrandbits(30) + 1]), "heap_shift": rng.getrandbits(10),
        "clock0": 1_500_000_000_000_000_000 + rng.getrandbits(58), "spurious_pm": rng.choice([0, 0, 50]),
    }


def scores_differ(a, b):
    """Where two call results differ, or None."""
    if a[0] != b[0]:
        return f"{brief(a)} instead of {brief(b)}"
    if a[0] == "raised":
        return None if a[1] == b[1] else f"raised {a[1]} instead of {b[1]}"
    if a[2] != b[2]:
        return f"{a[2]!r} instead of {b[2]!r}"
    if len(a[1]) != len(b[1]):
        return f"{len(a[1])} scores instead of {len(b[1])}"
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        if x != y:
            return f"row {i}: score {float.fromhex(x)!r} instead of {float.fromhex(y)!r} ({sum(p != q for p, q in zip(a[1], b[1]))} of {len(a[1])} rows differ)"
    return None


def brief(r):
    return r[0] + " " + (str(r[1]) if r[0] == "raised" else f"{len(r[1])} scores")


# ------------------------------------------------------------------ reductions
def table_reductions(t):
    n = len(t["index"])
    for k in (n // 2, n // 4, 1):
        if 0 < k < n:
            for a in range(0, n, k):
                keep = [i for i in range(n) if not a <= i < a + k]
                if keep:
                    yield {**t, "index": [t["index"][i] for i in keep],
                           "cols": [{**c, "v": [c["v"][i] for i in keep]} for c in t["cols"]]}
    if len(t["cols"]) > 1:
        for j in range(len(t["cols"])):
            yield {**t, "cols": t["cols"][:j] + t["cols"][j + 1:]}
    if t["layout"] != "dict":
        yield {**t, "layout": "dict"}
    if t["index"] != list(range(n)):
        yield {**t, "index": list(range(n))}


def smaller(x, lo=1):
    """Smaller whole numbers, boldest first."""
    seen = []
    for y in (lo, x // 2, x - 1):
        if lo <= y < x and y not in seen:
            seen.append(y)
    return seen


def sched_reductions(s):
    for k in ("alloc_pm", "thr_pm", "spurious_pm", "conflict_pm", "heap_shift"):
        if s.get(k):
            yield {**s, k: 0}
    if s.get("mode") != 0 and not s.get("pinned"):
        yield {**s, "mode": 0}
    for k in smaller(s.get("ncpu", 1)):
        yield {**s, "ncpu": k}
    if s.get("heap_fill", -1) != -1:
        yield {**s, "heap_fill": -1}


def reductions(sc):
    """Generic: fewer callers, fewer calls, smaller tables, simpler parameters, simpler schedule."""
    callers = sc["callers"]
    if len(callers) > 1:
        for i in range(len(callers)):
            yield {**sc, "callers": callers[:i] + callers[i + 1:]}
    for i, ops in enumerate(callers):
        if len(ops) > 1:
            for j in range(len(ops)):
                yield {**sc, "callers": callers[:i] + [ops[:j] + ops[j + 1:]] + callers[i + 1:]}
    for s in sched_reductions(sc["sched"]):
        yield {**sc, "sched": s}
    for i, ops in enumerate(callers):
        for j, op in enumerate(ops):
            for k, lo in (("forest", 1), ("tree", 2), ("seed", 0)):
                for x in smaller(op[k], lo):
                    yield {**sc, "callers": callers[:i] + [ops[:j] + [{**op, k: x}] + ops[j + 1:]] + callers[i + 1:]}
    for i, t in enumerate(sc["tables"]):
        for t2 in table_reductions(t):
            yield {**sc, "tables": sc["tables"][:i] + [t2] + sc["tables"][i + 1:]}


def pin(sc, result):
    """The scenario with its schedule written out."""
    script = result.get("script")
    if script is None:
        return None
    return {**{k: v for k, v in sc.items() if k != "record"}, "script": script, "sched": {**sc["sched"], "mode": 0, "pinned": True}}


REAL = ["frds.algorithms.isolation_forest (Python wrapper)", "iforest_ext: all of IsolationForest.cpp/.hpp and iforest_module.cpp, compiled from /repo "
        "with every memory access and library call instrumented", "CPython, numpy, pandas", "C++ standard library containers and algorithms"]
STUB = ["thread scheduler (threads are real, one runs at a time)", "std::thread start/join/detach, mutexes, condition variables, once, futexes",
        "operator new/delete and numpy's data allocator (junk-filled arena, refusals)", "interpreter lock hand-over", "clocks, random_device, processor count"]
MEASURE = "64-bit hash of the sequence of (step, thread switched to)"
