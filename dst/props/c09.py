"""C09: native acceleration is transparent."""
import random
import sys

from dst import build, est, native, pysim

NATIVE = False
TIMEOUT = 60
HANG_IS_VIOLATION = True
RULE = ("Seeded import histories (which of the helper extensions cannot be loaded and how, which modules are imported in which order, imports interrupted and repeated) "
        "followed by seeded programs of calls of every function with a native version, fits (with replaced and with real optimisers), LRMES and SRISK on "
        "arrays of many lengths, layouts and number types. Every import must work and every result must be that of a process with all extensions, up to rounding. "
        "Non-trivial: an extension could not be loaded.")
MEASURE = "import history with the kinds of calls made"
REAL = ["frds.algorithms, frds.measures and their imports", "utils_ext, measures_ext compiled from /repo (where not withheld)", "numpy, scipy.optimize (except where replaced)"]
STUB = ["finding of the extensions by the import system", "the optimiser, where replaced (then the same points are tried on both sides)"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["an extension that cannot be loaded raises ImportError or ModuleNotFoundError"]
COUNT = {"quick": 2600, "thorough": 40000}

UT, ME = "frds.algorithms.utils.utils_ext", "frds.measures.measures_ext"
MODULES = ["frds", "frds.algorithms", "frds.measures", "frds.algorithms._garch", "frds.algorithms._mgarch", "frds.measures._long_run_mes", "frds.measures._srisk",
           "frds.algorithms.utils", "frds.datasets", "frds.measures.modified_merton.mod_merton_computation", "frds.algorithms.isolation_forest",
           "frds.measures.spread"]
F = {"finder": None, "missing": {}, "strike": None}


def prepare(bdir):
    import numpy
    import pandas  # noqa
    import scipy.optimize  # noqa
    import scipy.stats  # noqa

    est.np = numpy
    F["finder"] = build.install_finder(bdir, "plain")
    real = F["finder"].find_spec

    def find_spec(name, path=None, target=None):
        if F["strike"] and F["strike"]["at"] == name:
            s, F["strike"] = F["strike"], None
            raise pysim.EXC[s["exc"]]("simulated")
        how = F["missing"].get(name)
        if how == "ImportError":
            raise ImportError(f"{name}: cannot open shared object file (simulated)", name=name)
        if how == "ModuleNotFoundError":
            raise ModuleNotFoundError(f"No module named '{name}' (simulated)", name=name)
        return real(name, path, target)

    F["finder"].find_spec = find_spec
    pysim.install()


# ------------------------------------------------------------------ generation
LAYOUTS = ["plain", "plain", "strided", "column", "reversed", "readonly", "float32", "int"]
LENGTHS = [1, 2, 3, 7, 40, 74, 75, 76, 130]
LONG = [200, 255, 256, 257, 513, 1000, 1025, 2500, 4097]


def gen_arr(rng, lengths=LENGTHS):
    return {"T": rng.choice(LONG[:5] if rng.random() < 0.9 and lengths is not LENGTHS else LONG) if rng.random() < 0.05 else rng.choice(lengths), "s": rng.randrange(1000), "kind": rng.choice(["garch", "garch", "iid", "outlier", "alternating", "constant", "zero", "trend"]),
            "scale": rng.choice([1.0, 1.0, 0.01, 30.0]), "layout": rng.choice(LAYOUTS)}


def gen_params(rng, gjr):
    o = rng.choice([rng.uniform(1e-6, 1), rng.uniform(0, 1e-8), rng.uniform(0, 50), 1e15])
    a, b = rng.choice([(rng.uniform(0, 0.3), rng.uniform(0, 0.69)), (0.0, 0.0), (rng.uniform(0, 3), rng.uniform(0, 3)), (0.05, 0.95), (1.0, 0.0)])
    g = rng.choice([0.0, rng.uniform(0, 0.3), -0.2, 2.0])
    return [o, a, g, b] if gjr else [o, a, b]


def gen_call(rng):
    x = rng.random()
    if x < 0.22:
        m = rng.choice(["GARCHModel", "GJRGARCHModel"])
        return {"call": "compute_variance", "model": m, "x": gen_arr(rng), "p": gen_params(rng, m != "GARCHModel"), "pt": rng.choice(["list", "tuple", "array"]),
                "bc": rng.choice([0.0, 0.5, 3.0, 1e9, 1e-12]), "vb": rng.choice(["own", "own", "narrow", "float32", "fortran", "strided"])}
    if x < 0.34:
        return {"call": "ewma", "x": gen_arr(rng), "init": rng.choice([0.0, 1.0, 1e-20, 1e8]), "lam": rng.choice([None, 0.94, 0.5, 0.0, 1.0])}
    if x < 0.44:
        return {"call": "bounds_check", "s": rng.choice([0.5, 1.0, 2.0, 5.0, 10.0, 1e9, 1e300, "inf", "-inf", "nan", -1.0, 0.0]),
                "b": rng.choice([[1.0, 10.0], [2.0, 2.0], [1e-9, 1e7], [0.0, 0.0]]), "t": rng.choice(["array", "row", "float32", "strided"])}
    if x < 0.54:
        return {"call": rng.choice(["preparation", "preparation", "loglikelihood"]), "model": rng.choice(["GARCHModel", "GJRGARCHModel"]), "zero": rng.random() < 0.4, "x": gen_arr(rng),
                "p": rng.getrandbits(20)}
    if x < 0.66:
        return {"call": "conditional_correlations", "model": rng.choice(["GARCHModel_DCC", "GJRGARCHModel_DCC"]), "x": gen_arr(rng, [2, 5, 40, 90]), "y": gen_arr(rng),
                "ab": rng.choice([[0.05, 0.9], [0.0, 0.0], [0.3, 0.6], [1.0, 0.0], [0.0, 1.0]]), "stub": rng.getrandbits(20)}
    if x < 0.8:
        return {"call": "fit", "model": rng.choice(["GARCHModel", "GJRGARCHModel", "GARCHModel_CCC", "GARCHModel_DCC", "GJRGARCHModel_DCC"]), "zero": rng.random() < 0.3,
                "x": gen_arr(rng, [3, 20, 60, 80]), "y": gen_arr(rng), "stub": rng.getrandbits(20)}
    if x < 0.84:
        return {"call": "fit", "model": rng.choice(["GARCHModel", "GJRGARCHModel", "GARCHModel_CCC", "GARCHModel_DCC", "GJRGARCHModel_DCC"]), "zero": rng.random() < 0.3,
                "x": {"T": 120, "s": rng.randrange(6), "kind": "garch", "scale": 1.0, "layout": rng.choice(["plain", "strided"])}, "y": {"s": rng.randrange(6), "kind": "garch", "scale": 1.0, "layout": "plain"},
                "stub": None}
    if x < 0.94:
        return {"call": "LRMES", "x": gen_arr(rng, [10, 40, 90]), "y": gen_arr(rng), "stub": rng.getrandbits(20), "h": rng.choice([1, 2, 5, 22, 22, 65, 260]), "S": rng.choice([1, 10, 40, 40, 40, 300]),
                "C": rng.choice([-0.1, -0.01, 0.0, 0.05]), "r": rng.randrange(100), "method": rng.random() < 0.4}
    return {"call": "SRISK", "x": gen_arr(rng, [20, 60]), "y": gen_arr(rng), "stub": rng.getrandbits(20), "h": 3, "S": 8, "C": -0.005, "r": rng.randrange(100), "n": rng.choice([1, 2, 3]),
            "agg": rng.random() < 0.3}


def generate(seed):
    rng = random.Random(f"C09/{seed}")
    miss = rng.choice([[UT], [UT], [ME], [UT, ME], [UT, ME], []])
    order = rng.sample(MODULES, rng.randrange(len(MODULES) + 1))
    sc = {"seed": seed, "missing": {m: rng.choice(["ImportError", "ModuleNotFoundError"]) for m in miss}, "order": order, "calls": [gen_call(rng) for _ in range(rng.choice([2, 4, 8]))]}
    if rng.random() < 0.2:
        sc["strike"] = {"at": rng.choice([UT, ME]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "TimeoutError"])}
    return sc


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ execution
def arr(a, T=None):
    return est.layout(est.returns(T or a["T"], a["s"], a["kind"], a["scale"]), a["layout"])


def val(v):
    return float(v) if isinstance(v, str) else v


def enc(r):
    np = est.np
    if isinstance(r, (tuple, list)):
        return [enc(x) for x in r]
    if isinstance(r, np.ndarray):
        return {"shape": list(r.shape), "v": [float(x).hex() for x in r.ravel().astype(float)]}
    if r is None or isinstance(r, (bool, np.bool_)):
        return bool(r) if r is not None else None
    return float(r).hex()


def call(c):
    np, A, Me = est.np, est.A, est.Me
    k = c["call"]
    pysim.MIN_POLICY = None
    if c.get("stub") is not None:
        n = [0]

        def policy(recd):
            n[0] += 1
            return {"what": "stub", "seed": [c["stub"], n[0]], "n": 2, "after": 0, "any": True}

        pysim.MIN_POLICY = policy
    if k == "compute_variance":
        x = arr(c["x"])
        cls = getattr(A, c["model"])
        p = {"list": list, "tuple": tuple, "array": np.array}[c["pt"]](c["p"])
        vb = A.GARCHModel.variance_bounds(np.asarray(x, dtype=float))
        if c["vb"] == "narrow":
            vb = np.stack([np.full(len(x), 0.9), np.full(len(x), 1.5)], axis=1)
        elif c["vb"] == "float32":
            vb = np.clip(vb, 1e-30, 1e30).astype(np.float32)
        elif c["vb"] == "fortran":
            vb = np.asfortranarray(vb)
        elif c["vb"] == "strided":
            w = np.full((len(x), 4), 7e7)
            w[:, ::2] = vb
            vb = w[:, ::2]
        return enc(np.asarray(cls.compute_variance(p, x, c["bc"], vb)))
    if k == "ewma":
        x = arr(c["x"])
        return enc(A.GARCHModel.ewma(x, c["init"]) if c["lam"] is None else A.GARCHModel.ewma(x, c["init"], c["lam"]))
    if k == "bounds_check":
        b = np.array(c["b"])
        if c["t"] == "row":
            b = np.array([[-9.0, -9.0], c["b"]])[1]
        elif c["t"] == "float32":
            b = b.astype(np.float32)
        elif c["t"] == "strided":
            b = np.array([c["b"][0], 77.0, c["b"][1], 77.0])[::2]
        return enc(float(A.GARCHModel.bounds_check(val(c["s"]), b)))
    if k in ("preparation", "loglikelihood"):
        m = getattr(A, c["model"])(arr(c["x"]), c["zero"])
        sv = [float(v) for v in m.preparation()]
        if k == "preparation":
            return enc([np.array(sv), m.backcast_value, m.var_bounds])
        r = random.Random(c["p"])
        p = [v * r.uniform(0.5, 1.5) for v in sv]
        return enc([m.loglikelihood_model(np.array(p), m.backcast_value, m.var_bounds, c["zero"]), m.sigma2])
    if k == "conditional_correlations":
        m = getattr(A, c["model"])(arr(c["x"]), arr(c["y"], c["x"]["T"]))
        return enc(np.asarray(m.conditional_correlations(*c["ab"])))
    if k == "fit":
        cls = getattr(A, c["model"])
        if c["model"] in ("GARCHModel", "GJRGARCHModel"):
            m = cls(arr(c["x"]), c["zero"])
        else:
            m = cls(arr(c["x"]), arr(c["y"], c["x"]["T"]))
        m.fit()
        ok = bool(m.estimation_success)
        if c["stub"] is None:
            return [ok, est.params(m)[-1].hex() if ok else None]
        return [ok] + ([enc(np.array(est.params(m)))] if ok else []) + ([enc(m.sigma2), enc(m.resids)] if ok and hasattr(m, "sigma2") else [])
    if k == "LRMES":
        m = Me.LongRunMarginalExpectedShortfall(np.asarray(arr(c["x"])) / 1000, np.asarray(arr(c["y"], c["x"]["T"])) / 1000)
        v = m.estimate(h=c["h"], S=c["S"], C=c["C"], random_seed=c["r"])
        if c["method"]:
            return [enc(v), simulation(m, c)]
        return enc(v)
    if c["n"] == 1:
        m = Me.SRISK(np.asarray(arr(c["x"])) / 1000, np.asarray(arr(c["y"], c["x"]["T"])) / 1000, 3.0, 20.0)
    else:
        p = np.stack([np.asarray(arr({**c["x"], "s": c["x"]["s"] + i, "layout": "plain"})) / 1000 for i in range(c["n"])], axis=1)
        m = Me.SRISK(p, np.asarray(arr(c["y"], c["x"]["T"])) / 1000, np.arange(1.0, c["n"] + 1), np.full(c["n"], 9.0))
    return enc(m.estimate(k=0.1, lrmes_h=c["h"], lrmes_S=c["S"], lrmes_C=c["C"], lrmes_random_seed=c["r"], aggregate_srisk=c["agg"]))


def simulation(m, c):
    """One simulation, by the class's own method and, where it is there, by the extension."""
    import importlib

    np = est.np
    L = importlib.import_module("frds.measures._long_run_mes")
    r = np.random.RandomState(c["r"])
    inv = r.normal(size=(c["h"], 2)) * 2
    f, k = m.firm_model, m.market_model
    a, b, rho = m.dcc_model.parameters.a, m.dcc_model.parameters.b, 0.4
    Q = np.array([[1.0, 0.3], [0.3, 1.0]])
    own = m.simulation(inv, c["C"], f.sigma2[-1], k.sigma2[-1], f.resids[-1], k.resids[-1], a, b, rho, Q)
    out = [enc(float(own[0])), bool(own[1])]
    ext = getattr(L, "ext", None) if getattr(L, "USE_CPP_EXTENSION", True) else None
    if hasattr(ext, "simulation"):
        fp, kp = f.parameters, k.parameters
        x = ext.simulation(inv, c["C"], f.sigma2[-1], k.sigma2[-1], f.resids[-1], k.resids[-1], a, b, rho, Q, fp.mu, fp.omega, fp.alpha, fp.gamma, fp.beta,
                           kp.mu, kp.omega, kp.alpha, kp.gamma, kp.beta)
        if differ(enc([float(x[0])]), [out[0]], 1e-9) or bool(x[1]) != out[1]:
            return ["the extension simulates", enc(float(x[0])), bool(x[1]), "the method", out]
    return out


def program(sc, missing, order, strike):
    """What the calls give in this process."""
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    F["missing"] = missing
    F["strike"] = dict(strike) if strike else None
    fired = []
    sim = pysim.Sim({"mode": "none", "budget": 20_000_000})
    out = []

    def body():
        for name in order + ["frds.algorithms", "frds.measures"]:
            try:
                importlib.import_module(name)
            except Exception as e:  # noqa
                if not (strike and F["strike"] is None and not fired):
                    return ["import", f"importing {name} raises {type(e).__name__}: {e}"]
                fired.append(name)
            except KeyboardInterrupt:
                fired.append(name)
            if fired == [name]:
                try:
                    importlib.import_module(name)
                except Exception as e:  # noqa
                    return ["import", f"importing {name} again, after an interrupted import, raises {type(e).__name__}: {e}"]
        est.A = importlib.import_module("frds.algorithms")
        est.Me = importlib.import_module("frds.measures")
        for c in sc["calls"]:
            try:
                out.append(["ok", call(c)])
            except pysim.Deadlock:
                raise
            except Exception as e:  # noqa
                out.append(["raised", type(e).__name__])
        return None

    r = sim.run([body])[0]
    if r[0] == "raised":
        if sim.failed:
            return {"imports": f"{sim.failed}", "out": [], "events": sim.events, "fired": fired}
        raise r[1]
    return {"imports": r[1][1] if r[1] else None, "out": out, "events": sim.events, "fired": fired}


def differ(a, b, tol):
    """None, or the first two numbers that are not the same up to rounding."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or a["shape"] != b["shape"]:
            return ["shape", a.get("shape") if isinstance(a, dict) else a, b.get("shape") if isinstance(b, dict) else b]
        scale = max([abs(float.fromhex(y)) for y in b["v"] if float.fromhex(y) - float.fromhex(y) == 0] or [0.0])
        for x, y in zip(a["v"], b["v"]):
            w = differ(x, y, (tol, scale * 1e-12))
            if w:
                return w
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return ["length", len(a), len(b)]
        for x, y in zip(a, b):
            w = differ(x, y, tol)
            if w:
                return w
        return None
    if isinstance(a, str) and isinstance(b, str):
        rt, at = tol if isinstance(tol, tuple) else (tol, 1e-14)
        try:
            x, y = float.fromhex(a), float.fromhex(b)
        except ValueError:
            return None if a == b else [a, b]
        if x == y or (x != x and y != y) or abs(x - y) <= rt * max(abs(x), abs(y)) + at:
            return None
        return [x, y]
    return None if a == b and type(a) is type(b) else [a, b]


def execute(sc):
    st, want = native.in_fork(lambda: program(sc, {}, [], None))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": "with all extensions: " + want["how"]}], "stats": {"runs": 1}}
    st, got = native.in_fork(lambda: program(sc, sc["missing"], sc["order"], sc.get("strike")))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": f"without {sorted(sc['missing'])}: " + got["how"]}], "stats": {"runs": 1}}
    viol = []
    lost = f"without {', '.join(sorted(sc['missing'])) or 'nothing'}, importing {', '.join(sc['order']) or 'in the usual order'}"
    if want["imports"]:
        viol.append({"kind": "import fails", "detail": "with all extensions: " + want["imports"]})
    elif got["imports"]:
        viol.append({"kind": "import fails", "detail": f"{lost}: {got['imports']}"})
    else:
        for c, g, w in zip(sc["calls"], got["out"], want["out"]):
            tol = 2e-3 if c["call"] == "fit" and c["stub"] is None else 1e-6 if c["call"] in ("fit", "LRMES", "SRISK") else 1e-8
            d = differ(g, w, tol)
            if d:
                viol.append({"kind": "another result", "detail": f"{lost}: {name(c)} gives {clip(g)} instead of {clip(w)} ({d})"})
                break
    faults = {f"{how} for {m.split('.')[-1]}": 1 for m, how in sc["missing"].items()}
    if got.get("fired"):
        faults[f"import interrupted: {sc['strike']['exc']}"] = 1
    return {"violations": viol[:1], "stats": {"runs": 2, "steps": want["events"] + got["events"], "faults": faults,
                                              "probes": {"results compared": len(want["out"]), "of these exceptions": sum(o[0] == "raised" for o in want["out"])},
                                              "hashes": [repr(sorted(sc["missing"].items())) + repr(sc["order"]) + repr(sc.get("strike")) + repr([name(c) for c in sc["calls"]])],
                                              "nontrivial": bool(sc["missing"]), "key": sc["seed"]},
            "summary": {"imports": got["imports"], "outcomes": [o[0] for o in got["out"]]}}


def name(c):
    k = c["call"]
    s = c.get("model", "") + ("." if c.get("model") else "") + k
    if "x" in c:
        s += f"({c['x'].get('T')} {c['x']['layout']} {c['x']['kind']} returns)"
    return s


def clip(v):
    return str(v)[:300]


def reductions(sc):
    for n in range(len(sc["calls"])):
        if len(sc["calls"]) > 1:
            yield {**sc, "calls": sc["calls"][:n] + sc["calls"][n + 1:]}
    for k in (4, 2, 1):
        for a in range(0, len(sc["order"]), k):
            yield {**sc, "order": sc["order"][:a] + sc["order"][a + k:]}
    for m in sc["missing"]:
        yield {**sc, "missing": {k: v for k, v in sc["missing"].items() if k != m}}
    if sc.get("strike"):
        yield {k: v for k, v in sc.items() if k != "strike"}
    for n, c in enumerate(sc["calls"]):
        for f, v in (("layout", "plain"), ("kind", "garch"), ("scale", 1.0)):
            if "x" in c and c["x"][f] != v:
                yield {**sc, "calls": sc["calls"][:n] + [{**c, "x": {**c["x"], f: v}}] + sc["calls"][n + 1:]}
        for T in (2, 3, 7, 40):
            if "x" in c and c["x"]["T"] > T and c["call"] not in ("LRMES", "SRISK", "fit"):
                yield {**sc, "calls": sc["calls"][:n] + [{**c, "x": {**c["x"], "T": T}}] + sc["calls"][n + 1:]}
                break
