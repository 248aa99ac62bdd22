"""C14: the distress insurance premium is sound for every random stream."""
import math
import random
import zlib

from dst import est, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded premiums of one to eight banks from a simulated random stream, which gives any legal outcome of the normal and triangular draws: the generator's own (random seeds), all banks "
        "or none defaulting, mixtures, ties with the default thresholds, losses at the ends of their range, at the boundaries of the loss intervals and of the threshold; several "
        "thresholds with the same draws. Every premium must come without error, be finite, between 0 and the number of banks, not increase with the threshold, and lie between bounds "
        "computed from the recorded draws (mean loss beyond the threshold, to the 1% resolution). Non-trivial: draws were replaced by extreme ones.")
MEASURE = "numbers of banks, simulations, kinds of draws and the premiums"
REAL = ["frds.measures DistressInsurancePremium", "numpy's linear algebra"]
STUB = ["the outcomes of the draws, where they are replaced"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["default probabilities lie strictly between 0 and 1, correlation matrices are positive definite", "normal draws of double precision do not exceed 8 in size"]
COUNT = {"quick": 6000, "thorough": 150000}

PLAN = None
DRAWS = []
LO, HI = 0.1, 1.0 - 6.7e-9


def install():
    import numpy as np

    def wrap(base):
        class Stream(base):
            def _sim(self, name, r, size, a, *more):
                if PLAN is None or pysim.SIM is None:
                    return r
                r = replace(name, r, a, *more)
                DRAWS.append((name, np.array(r, dtype=float)))
                return r

            def normal(self, loc=0.0, scale=1.0, size=None):
                return self._sim("normal", super().normal(loc, scale, size), size, loc, scale)

            def standard_normal(self, size=None, **kw):
                return self._sim("normal", super().standard_normal(size, **kw), size, 0.0, 1.0)

            def triangular(self, left, mode, right, size=None):
                return self._sim("triangular", super().triangular(left, mode, right, size), size, left, mode, right)

        Stream.__name__ = Stream.__qualname__ = base.__name__
        return Stream

    np.random.RandomState = wrap(np.random.RandomState)
    G = wrap(np.random.Generator)
    real = np.random.default_rng
    np.random.default_rng = lambda seed=None: seed if isinstance(seed, np.random.Generator) else G(real(seed).bit_generator)


def replace(name, r, a, *more):
    """Another legal outcome of the draws r."""
    np = est.np
    k = PLAN[name]
    g = random.Random(f"{PLAN['seed']}/{len(DRAWS)}")
    pysim.note(f"draws: {name} {k}")
    if k == "own":
        return r
    shape = np.shape(r)
    n = int(np.prod(shape)) if shape else 1
    if name == "normal":
        if k == "low":
            v = np.full(n, -8.0)
        elif k == "high":
            v = np.full(n, 8.0)
        elif k == "zero":
            v = np.zeros(n)
        elif k == "tie":
            t = PLAN["ties"]
            v = np.array([t[i % len(t)] for i in range(n)])
        elif k == "rows":
            w = shape[-1] if shape else 1
            v = np.array([x for _ in range(n // w) for x in [g.choice([-8.0, 8.0])] * w])
        elif k == "one":
            v = np.full(n, 8.0)
            v[g.randrange(n)] = -8.0
        else:
            v = np.array([g.choice([-8.0, 8.0, 0.0, g.gauss(0, 1), -g.random()]) for _ in range(n)])
        v = v * (more[0] if more else 1.0) + a
    else:
        lo, mode, hi = a, more[0], more[1]
        hi = hi - 6.7e-9 * (hi - lo)
        if k == "min":
            v = np.full(n, lo)
        elif k == "max":
            v = np.full(n, hi)
        elif k == "mode":
            v = np.full(n, mode)
        elif k == "ends":
            v = np.array([g.choice([lo, hi]) for _ in range(n)])
        elif k == "grid":
            v = np.array([g.randrange(10, 100) / 100 for _ in range(n)])
        elif k == "edge":
            v = np.array([min(hi, max(lo, PLAN["edge"] + g.choice([0, 0, 1e-16, -1e-16, 1e-9, -1e-9, 0.01, -0.01]))) for _ in range(n)])
        else:
            v = np.array([min(hi, max(lo, g.choice([lo, hi, mode, g.uniform(lo, hi)]))) for _ in range(n)])
    return v.reshape(shape) if shape else float(v[0])


def prepare(bdir):
    import numpy  # noqa

    install()
    est.prepare(bdir)


# ------------------------------------------------------------------ generation
NORMAL = ["own", "own", "low", "low", "high", "zero", "tie", "rows", "one", "mixed", "mixed"]
TRIANGULAR = ["own", "min", "max", "max", "mode", "ends", "grid", "grid", "edge", "edge", "mixed"]


def generate(seed):
    rng = random.Random(f"C14/{seed}")
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 8])
    thr = [rng.choice([0, 0.01, 0.1, 0.15, 0.15, 0.2, 0.28, 0.29, 0.3, 0.5, 0.55, 0.57, 0.9, 0.99, 1.0, 1.01, 1.5, round(rng.uniform(0, 1), 3), rng.uniform(0, 1)]) for _ in range(rng.choice([1, 3, 5]))]
    x = rng.random()
    size = [rng.choice([1, 2, 5, 40, 200]), rng.choice([1, 2, 7, 30])]
    if rng.random() < 0.01:
        size = rng.choice([[1001, 101], [5000, 1000], [60_001, 130], [130_000, 1000], [500_000, 1000]])
        x, n = 0.0, min(n, 3)
    elif rng.random() < 0.01:
        n, size = rng.choice([12, 17, 33, 40, 130, 260]), [rng.choice([5, 40]), rng.choice([2, 7])]
    return {"seed": seed, "n": n, "p": [rng.choice([0.5, 0.01, 0.99, 1e-6, 1 - 1e-6, rng.uniform(0.001, 0.2), rng.uniform(0.01, 0.9)]) for _ in range(n)],
            "corr": rng.choice(["eye", "eye", "random", "equal"]), "cseed": rng.randrange(100), "dtype": rng.choice(["float64", "float64", "float32"]),
            "nr": size[0], "ns": size[1], "rs": rng.choice([0, 1, 2**32 - 1, rng.getrandbits(32)]), "thr": sorted(thr),
            "plan": {"seed": rng.getrandbits(30), "normal": "own" if x < 0.25 else rng.choice(NORMAL), "triangular": "own" if x < 0.25 else rng.choice(TRIANGULAR),
                     "edge": rng.choice(thr)},
            "order": rng.random() < 0.5, "new": rng.random() < 0.5}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ execution
def inputs(sc):
    np = est.np
    n = sc["n"]
    if sc["corr"] == "eye":
        c = np.eye(n)
    elif sc["corr"] == "equal":
        c = np.full((n, n), 0.3) + 0.7 * np.eye(n)
    else:
        m = np.random.mtrand._rand.__class__(sc["cseed"]).normal(size=(n, 4 * n))
        c = np.atleast_2d(np.corrcoef(m)) * 0.9 + 0.1 * np.eye(n)
    return np.array(sc["p"], dtype=sc["dtype"]), c


def envelope(p, c, z, L, thr):
    """Bounds on the mean loss beyond the threshold for these draws: L[i] are losses with i + 1 defaults."""
    np = est.np
    from statistics import NormalDist

    n = len(p)
    t = np.array([NormalDist().inv_cdf(float(x)) for x in p])
    x = z @ np.linalg.cholesky(c).T
    sure = np.sum(x < t - 1e-5, axis=1)
    may = np.sum(x < t + 1e-5, axis=1)  # ties
    a = b = 0.0
    for d0, d1 in zip(sure, may):
        lows = [float(np.mean(np.where(L[d - 1] > thr * n + 1e-9, L[d - 1], 0.0))) if d else 0.0 for d in range(d0, d1 + 1)]
        cut = (math.floor(thr * 100 - 1e-9) / 100) * n - 0.01 - 1e-9
        highs = [float(np.mean(np.where(L[d - 1] >= cut, L[d - 1] + 0.01, 0.0))) if d else 0.0 for d in range(d0, d1 + 1)]
        a, b = a + min(lows), b + max(highs)
    return a / len(z), b / len(z)


def execute(sc):
    st, v = native.in_fork(lambda: run(sc))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def run(sc):
    global PLAN
    import warnings
    from statistics import NormalDist

    np = est.np
    warnings.simplefilter("ignore")
    sim = pysim.Sim({"mode": "none", "budget": 20_000_000})
    p, c = inputs(sc)
    PLAN = {**sc["plan"], "ties": [NormalDist().inv_cdf(float(x)) for x in p]}
    viol, got = [], []
    bounds_used = [0]

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": f"{sc['n']} banks, p={sc['p']}, {sc['corr']} correlations, {sc['nr']} returns, {sc['ns']} losses, seed {sc['rs']}, draws {sc['plan']['normal']}/"
                         f"{sc['plan']['triangular']}: {detail}"[:1000]})

    def body():
        o = est.Me.DistressInsurancePremium(p, c)
        order = sc["thr"] if sc["order"] else sc["thr"][::-1]
        for thr in order:
            del DRAWS[:]
            if sc["new"]:
                o = est.Me.DistressInsurancePremium(p, c)
            try:
                v = o.estimate(thr, sc["rs"], sc["nr"], sc["ns"])
            except pysim.Deadlock:
                raise
            except Exception as e:  # noqa
                bad("raises", f"threshold {thr}: {type(e).__name__}: {e}")
                return
            try:
                v = float(v)
            except (TypeError, ValueError):
                bad("not a number", f"threshold {thr}: {v!r}")
                return
            if not math.isfinite(v):
                bad("not finite", f"threshold {thr}: {v!r}")
            elif not -1e-12 <= v <= sc["n"] * (1 + 1e-9):
                bad("out of range", f"threshold {thr}: {v!r}")
            z = [d for k, d in DRAWS if k == "normal" and d.shape == (sc["nr"], sc["n"])]
            L = {}
            for k, d in DRAWS:
                if k == "triangular" and d.ndim == 2 and d.shape[1] == sc["ns"]:
                    L.setdefault(d.shape[0], []).append(d.sum(axis=0))
            if not viol and len(z) == 1 and len(DRAWS) == 1 + sc["n"] and sorted(L) == list(range(1, sc["n"] + 1)):
                bounds_used[0] += 1
                a, b = envelope(p, c, z[0], [L[i + 1][0] for i in range(sc["n"])], thr)
                if not a - 1e-6 <= v <= b + 1e-6:
                    bad("not the mean loss", f"threshold {thr}: {v!r}; the draws give between {a!r} and {b!r}" + ("" if b else ": no simulated loss comes near the threshold"))
            got.append((thr, v))
            if viol:
                return
        got.sort()
        for (t0, v0), (t1, v1) in zip(got, got[1:]):
            if v1 > v0 + 1e-12 * sc["n"]:
                bad("increases with the threshold", f"threshold {t0} gives {v0!r}, {t1} gives {v1!r}")

    r = sim.run([body])
    PLAN = None
    if sim.failed:
        viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
    elif r[0][0] == "raised":
        raise r[0][1]
    k = repr([sc["n"], sc["nr"], sc["ns"], sc["corr"], sc["plan"]["normal"], sc["plan"]["triangular"], got])
    return {"violations": viol[:1],
            "stats": {"runs": len(got), "steps": sim.events, "faults": dict(sim.faults), "probes": {"premiums": len(got), "premiums compared with the draws": bounds_used[0],
                                                                                                   "premiums of 0": sum(v == 0 for _, v in got)},
                      "hashes": [format(zlib.crc32(k.encode()), "x")], "nontrivial": sc["plan"]["normal"] != "own" or sc["plan"]["triangular"] != "own", "key": k},
            "summary": {"premiums": got}}


def reductions(sc):
    if len(sc["thr"]) > 1:
        for k in range(len(sc["thr"])):
            yield {**sc, "thr": sc["thr"][:k] + sc["thr"][k + 1:]}
    if sc["n"] > 1:
        for k in range(sc["n"]):
            yield {**sc, "n": sc["n"] - 1, "p": sc["p"][:k] + sc["p"][k + 1:]}
    if sc["corr"] != "eye":
        yield {**sc, "corr": "eye"}
    for k, vals in (("nr", [1, 2, 5]), ("ns", [1, 2])):
        for v in vals:
            if v < sc[k]:
                yield {**sc, k: v}
    if sc["dtype"] != "float64":
        yield {**sc, "dtype": "float64"}
    for k in ("normal", "triangular"):
        if sc["plan"][k] != "own":
            yield {**sc, "plan": {**sc["plan"], k: "own"}}
