"""C12: native helpers survive running out of memory."""
import random
import struct
import sys

from dst import build, forest, native

NATIVE = True
TIMEOUT = 60
HANG_IS_VIOLATION = True
RULE = ("Seeded scenarios: a sequence of native helper calls in one process, each with one fault plan (the k-th C++ or numpy allocation inside the "
        "helper, or the k-th Python object allocation from the call on, refused once or from then on), each followed by the same call without a "
        "fault; or a whole model or measure with the k-th helper allocation refused, followed by a fresh and a repeated estimation. Compared bit for bit with a process without faults. "
        "Non-trivial: a fault fired inside a helper.")
MEASURE = "fault plan: (helper, kind of memory, index of the refused allocation, one or all from there on, outcome)"
REAL = ["utils_ext and measures_ext compiled from /repo with instrumentation", "frds.algorithms GARCH models and LRMES (model scenarios)", "CPython, numpy, scipy"]
STUB = ["operator new/delete (arena, refusals)", "numpy data allocator", "Python object allocator (refusals through _testcapi.set_nomemory)"]
SIMTIME = "memory accesses of the helpers; no clock"
ASSUMPTIONS = ["CPython's and numpy's own handling of refused memory is trusted", "the C++ runtime's own exception objects are never refused"]
COUNT = {"quick": 8000, "thorough": 40000}
HUGE = 1 << 60

np = U = M = None


def prepare(bdir):
    global np, U, M
    forest.prepare(bdir)
    np = forest.np
    import _testcapi  # noqa
    import scipy.optimize  # noqa

    import frds.algorithms.utils.utils_ext as u
    import frds.measures.measures_ext as m
    import frds.algorithms, frds.measures  # noqa
    U, M = u, m


# ------------------------------------------------------------------ generation
def gen_fault(rng):
    kind = rng.choice(["new", "new", "py"])
    return {"kind": kind, "k": rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 12]), "n": rng.choice([1, 1, 2, HUGE]) if kind == "new" else rng.choice([1, 1, 2])}


FNS = ["ewma", "bounds", "garch", "gjr", "dcc", "sim"]


def gen_op(rng):
    return {"fn": rng.choice(FNS), "T": rng.choice([1, 2, 3, 5, 8, 17, 40]) if rng.random() < 0.93 else rng.choice([64, 65, 128, 129, 257, 1000, 1025, 4097]), "seed": rng.getrandbits(20),
            "params": rng.choice(["list", "tuple", "array", "iterator"]), "stride": rng.choice([1, 1, 2]), "fault": gen_fault(rng)}


def generate(seed):
    rng = random.Random(f"C12/{seed}")
    if rng.random() < 0.12:
        return {"seed": seed, "model": rng.choice(["GARCHModel", "GARCHModel", "GJRGARCHModel", "GARCHModel_CCC", "GARCHModel_DCC", "LRMES"]),
                "T": rng.choice([30, 50]), "dseed": rng.getrandbits(20), "at": round(rng.random(), 4), "n": rng.choice([1, 1, 3, HUGE]), "heap_fill": rng.getrandbits(30) + 1}
    return {"seed": seed, "ops": [gen_op(rng) for _ in range(rng.choice([3, 6, 12]))], "heap_fill": rng.choice([-1, -2, rng.getrandbits(30) + 1])}


def scenarios(seed, tier):
    # first every helper with every allocation it makes, then at random
    i = 0
    for fn in FNS:
        for kind in ("new", "py"):
            ops = [{"fn": fn, "T": T, "seed": 7, "params": p, "stride": 1, "fault": {"kind": kind, "k": k, "n": n}}
                   for T, p in ((5, "list"), (9, "iterator")) for k in range(14) for n in ((1, HUGE) if kind == "new" else (1,))]
            yield {"seed": f"sweep/{fn}/{kind}", "ops": ops, "heap_fill": 5}
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ execution
def args_of(op):
    r = np.random.RandomState(op["seed"] % (2**32))
    T = op["T"]

    def arr(v, two=False):
        v = np.asarray(v, dtype=np.float64)
        if op["stride"] == 1 or op["fn"] in ("ewma", "garch", "gjr", "bounds"):
            return np.ascontiguousarray(v)
        big = np.full((v.shape[0] * 2,) + v.shape[1:], 777.0)
        big[::2] = v
        return big[::2]

    def par(v):
        v = [float(x) for x in v]
        return {"list": lambda: v, "tuple": lambda: tuple(v), "array": lambda: np.array(v), "iterator": lambda: v}[op["params"]]()

    fn = op["fn"]
    if fn == "ewma":
        return [arr(r.normal(size=T)), float(r.uniform(0.1, 2)), 0.94]
    if fn == "bounds":
        return [float(r.normal() * 10), arr([0.5, 3.0])]
    vb = np.vstack([np.full(T, 1e-6), np.full(T, 1e6)]).T.copy()
    if fn == "garch":
        return [par([0.1, 0.05, 0.9]), arr(r.normal(size=T)), 1.0, vb]
    if fn == "gjr":
        return [par([0.1, 0.05, 0.02, 0.9]), arr(r.normal(size=T)), 1.0, vb]
    if fn == "dcc":
        return [0.05, 0.9, arr(r.normal(size=T)), arr(r.normal(size=T)), arr(r.uniform(0.5, 2, size=T)), arr(r.uniform(0.5, 2, size=T))]
    inn = arr(r.normal(size=(T, 2)))
    return [inn, float(r.choice([-0.1, 0.5])), 1.0, 1.1, 0.3, -0.2, 0.05, 0.9, 0.4, np.array([[1.0, 0.3], [0.3, 1.0]]),
            0.01, 0.1, 0.05, 0.02, 0.9, 0.02, 0.1, 0.05, 0.02, 0.9]


def fn_of(op):
    return {"ewma": U.ewma, "bounds": U.bounds_check, "garch": U.compute_garch_variance, "gjr": U.compute_gjrgarch_variance,
            "dcc": U.dcc_conditional_correlation, "sim": M.simulation}[op["fn"]]


def enc(r):
    """A result as text, bit for bit."""
    if isinstance(r, np.ndarray):
        return [x.hex() for x in r.astype(float).ravel().tolist()]
    if isinstance(r, float):
        return r.hex()
    if isinstance(r, tuple):
        return [enc(x) for x in r]
    return repr(r)


def one(op, faulted):
    """('ok', result) or ('raised', type). Arguments are compared before and after."""
    import _testcapi

    args = args_of(op)
    call_args = list(args)
    if op["params"] == "iterator" and op["fn"] in ("garch", "gjr"):
        call_args[0] = iter(args[0])
    call_args = tuple(call_args)
    f = fn_of(op)
    keep = [struct.pack("d", a) if isinstance(a, float) else repr(np.asarray(a).tolist()) for a in args]
    # what is still ours afterwards: the objects passed, and the numbers in a list or tuple (an exhausted iterator lets go of its list)
    owned = list(call_args) + ([x for x in call_args[0]] if isinstance(call_args[0], (list, tuple)) else [])
    refs = [sys.getrefcount(a) for a in owned]
    L = native.lib()
    ft = op["fault"]
    res = exc = None
    if faulted and ft["kind"] == "new":
        L.sim_set_faults(ft["k"], min(HUGE, ft["k"] + ft["n"]), 0, -1, -1, 0)
        try:
            res = f(*call_args)
        except BaseException as e:  # noqa
            exc = type(e).__name__
        L.sim_set_faults(-1, -1, 0, -1, -1, 0)
    elif faulted:
        setm, rem = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
        setm(ft["k"], ft["k"] + ft["n"])
        try:
            res = f(*call_args)
        except BaseException as e:  # noqa
            rem()
            exc = type(e).__name__
        rem()
    else:
        try:
            res = f(*call_args)
        except BaseException as e:  # noqa
            exc = type(e).__name__
    same = keep == [struct.pack("d", a) if isinstance(a, float) else repr(np.asarray(a).tolist()) for a in args]
    lost = [i for i, (a, b) in enumerate(zip(refs, [sys.getrefcount(a) for a in owned])) if b < a]
    return [("raised", exc) if exc else ("ok", enc(res)), same, lost]


def execute(sc):
    if "model" in sc:
        return execute_model(sc)
    ops = sc["ops"]
    stats = {"runs": 0, "steps": 0, "hashes": [], "faults": {}, "probes": {}}

    def sim(fn, fill):
        r, o = native.simulate([fn], {"ncpu": 1, "mode": 0, "heap_fill": fill, "numpy_faults": 1, "budget": 200_000_000})
        if r[0][0] != "ok":
            raise r[0][1]
        return r[0][1], o

    def clean():
        def f():
            forest.npmem.install()
            return [one(op, False)[0] for op in ops]
        return sim(f, -1)

    def faulty():
        def f():
            forest.npmem.install()
            out = []
            O = None
            for op in ops:
                L = native.lib()
                import ctypes
                o = (ctypes.c_int64 * len(native.OUT)).from_address(L.sim_out())
                ia, inp = native.OUT.index("alloc_failed"), native.OUT.index("numpy_failed")
                a0, n0 = o[ia], o[inp]
                r = one(op, True)
                fired = [int(o[ia] - a0), int(o[inp] - n0)]
                out.append([r, fired, one(op, False)[0]])
            return out
        return sim(f, sc["heap_fill"])

    st, v = native.in_fork(clean)
    stats["runs"] += 1
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": f"without faults: {v['how']}"}], "stats": stats}
    refs = v[0]
    st, v = native.in_fork(faulty)
    stats["runs"] += 1
    if st != "ok":
        det = f"{len(ops)} calls"
        if len(ops) == 1:
            det = describe(ops[0])
        return {"violations": [{"kind": "process ended", "detail": f"{det}: {v['how']}"}], "stats": stats}
    out, o = v
    viol = []
    fired_any = 0
    for op, ref, ((r, same, lost), fired, again) in zip(ops, refs, out):
        k = op["fault"]["kind"]
        f = fired[0] if k == "new" else int(r == ["raised", "MemoryError"] or r == ("raised", "MemoryError"))
        fired_any += f
        name = {"new": "C++ or numpy memory refused", "py": "Python object memory refused"}[k]
        stats["faults"][name] = stats["faults"].get(name, 0) + f
        stats["hashes"].append(f"{op['fn']}/{k}/{op['fault']['k']}/{op['fault']['n']}/{r[0]}/{op['params']}")
        bad = None
        if r[0] == "raised":
            stats["probes"]["MemoryError raised"] = stats["probes"].get("MemoryError raised", 0) + 1
            if ref[0] == "ok" and r[1] != "MemoryError":
                bad = ("wrong exception", f"raised {r[1]}")
        elif list(r) != list(ref):
            bad = ("wrong result under faults", f"returned {str(r[1])[:80]} instead of {str(ref[1])[:80]}")
        if not bad and not same:
            bad = ("arguments changed", "an argument's content changed")
        if not bad and lost:
            bad = ("arguments released", f"argument {lost[0]} lost a reference: it is freed while its owner uses it")
        if not bad and list(again) != list(ref):
            bad = ("wrong result after faults", f"the next call gives {str(again)[:80]} instead of {str(ref)[:80]}")
        if bad:
            viol.append({"kind": bad[0], "detail": f"{describe(op)}: {bad[1]}"})
            break
    stats["steps"] = o["steps"]
    stats["nontrivial"] = fired_any > 0
    stats["key"] = repr(sorted(stats["hashes"]))
    return {"violations": viol, "stats": stats, "summary": {"faults fired": fired_any, "allocations by helpers": o["allocs"]}}


def describe(op):
    ft = op["fault"]
    w = {"new": "C++/numpy allocation", "py": "Python object allocation"}[ft["kind"]]
    return f"{op['fn']} (T={op['T']}, {op['params']}), {w} {ft['k']}" + (" refused" if ft["n"] == 1 else " and later refused")


# ------------------------------------------------------------------ whole models
def model_result(name, T, seed, k=None, n=1, fill=-1):
    import frds.algorithms as A
    import frds.measures as Me

    def f():
        forest.npmem.install()
        r = np.random.RandomState(seed % (2**32))
        x, y = r.normal(size=T) + 0.01, r.normal(size=T) * 1.2
        y = 0.5 * x + y
        L = native.lib()

        def mk():
            if name == "LRMES":
                return Me.LongRunMarginalExpectedShortfall(x / 100, y / 100)
            c = getattr(A, name)
            return c(x) if name in ("GARCHModel", "GJRGARCHModel") else c(x, y)

        def go(m):
            try:
                if name == "LRMES":
                    return ["ok", m.estimate(h=5, S=20, C=-0.01).hex()]
                p = m.fit()
                return ["ok", [float(v).hex() for v in vars(p).values()], m.estimation_success]
            except Exception as e:  # noqa
                return ["raised", type(e).__name__]

        m = mk()
        if k is not None:
            L.sim_set_faults(k, min(HUGE, k + n), 0, -1, -1, 0)
        a = go(m)
        succ = None if name == "LRMES" else bool(m.estimation_success)
        L.sim_set_faults(-1, -1, 0, -1, -1, 0)
        b = go(m) if k is not None else None
        c = go(mk()) if k is not None else None
        return [a, succ, b, c]

    r, o = native.simulate([f], {"ncpu": 1, "mode": 0, "heap_fill": fill, "numpy_faults": 1, "budget": 2_000_000_000})
    if r[0][0] != "ok":
        raise r[0][1]
    return r[0][1], o


def execute_model(sc):
    stats = {"runs": 2, "steps": 0, "hashes": [], "faults": {}, "probes": {"whole models": 1}}
    st, v = native.in_fork(lambda: model_result(sc["model"], sc["T"], sc["dseed"]))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": f"{sc['model']} without faults: {v['how']}"}], "stats": stats}
    (ref, _, _, _), o = v
    k = int(sc["at"] * o["allocs"])
    st, v = native.in_fork(lambda: model_result(sc["model"], sc["T"], sc["dseed"], k, sc["n"], sc["heap_fill"]))
    where = f"{sc['model']} (T={sc['T']}), helper allocation {k} of {o['allocs']}" + (" refused" if sc["n"] == 1 else " and later refused")
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": f"{where}: {v['how']}"}], "stats": stats}
    (a, succ, b, c), o2 = v
    stats["steps"] = o["steps"] + o2["steps"]
    stats["faults"]["C++ or numpy memory refused"] = o2["alloc_failed"]
    stats["hashes"] = [f"{sc['model']}/{k}/{sc['n']}/{a[0]}"]
    stats["nontrivial"] = o2["alloc_failed"] > 0
    stats["key"] = repr(stats["hashes"] + [sc["dseed"]])
    bad = None
    if a[0] == "raised":
        if ref[0] == "ok" and a[1] != "MemoryError":
            bad = ("wrong exception", f"raised {a[1]}")
        elif succ:
            bad = ("success after a failure", "the model reports success although its estimation raised")
    elif a != ref:
        bad = ("wrong result under faults", f"{a} instead of {ref}")
    if not bad and b != ref:
        bad = ("wrong result after faults", f"estimating again gives {b} instead of {ref}")
    if not bad and c != ref:
        bad = ("wrong result after faults", f"a new model gives {c} instead of {ref}")
    viol = [{"kind": bad[0], "detail": f"{where}: {bad[1]}"[:1500]}] if bad else []
    return {"violations": viol, "stats": stats, "summary": {"outcome": a[0], "allocations": o["allocs"]}}


def reductions(sc):
    if "model" in sc:
        for x in forest.smaller(sc["T"], 5):
            yield {**sc, "T": x}
        if sc["n"] > 1:
            yield {**sc, "n": 1}
        for at in (0.0, 0.1, 0.5):
            if at < sc["at"]:
                yield {**sc, "at": at}
        return
    ops = sc["ops"]
    n = len(ops)
    if n > 1:
        for k in (n // 2, n // 4, 1):
            if k:
                for a in range(0, n, k):
                    yield {**sc, "ops": ops[:a] + ops[a + k:]} if n > k else sc
    for i, op in enumerate(ops):
        for x in forest.smaller(op["T"], 1):
            yield {**sc, "ops": ops[:i] + [{**op, "T": x}] + ops[i + 1:]}
        if op["params"] != "list":
            yield {**sc, "ops": ops[:i] + [{**op, "params": "list"}] + ops[i + 1:]}
        if op["fault"]["n"] > 1:
            yield {**sc, "ops": ops[:i] + [{**op, "fault": {**op["fault"], "n": 1}}] + ops[i + 1:]}
        for x in forest.smaller(op["fault"]["k"], 0):
            yield {**sc, "ops": ops[:i] + [{**op, "fault": {**op["fault"], "k": x}}] + ops[i + 1:]}
    if sc["heap_fill"] != -1:
        yield {**sc, "heap_fill": -1}
