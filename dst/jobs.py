"""Every estimator and measure as a job: a small description, the inputs it makes, the object, the call."""
import random
import zlib

from dst import est, native, pysim

L = None  # modules: lob_slope, spread, price_impact, modified_merton


class Mods:
    pass


def load():
    global L
    import importlib

    import pandas  # noqa

    L = Mods()
    for n in ("lob_slope", "spread", "price_impact"):
        setattr(L, n, importlib.import_module("frds.measures." + n))
    mm = "frds.measures.modified_merton."
    L.mc = importlib.import_module(mm + "mod_merton_computation")
    L.sc = importlib.import_module(mm + "mod_single_cohort_computation")
    L.ss = importlib.import_module(mm + "mod_single_cohort_solution")
    L.cl = importlib.import_module(mm + "mod_merton_create_lookup")
    L.sl = importlib.import_module(mm + "mod_single_merton_create_lookup")
    L.ff = importlib.import_module(mm + "fftsmooth")
    L.lp = importlib.import_module(mm + "loan_payoff")
    L.fv = importlib.import_module(mm + "find_face_value_indiv")
    L.ms = importlib.import_module(mm + "merton_solution")


def enc(r):
    """A result as JSON, bit for bit."""
    np = est.np
    if r is None or isinstance(r, (str, bool)):
        return r
    if isinstance(r, (tuple, list)):
        return [enc(x) for x in r]
    if isinstance(r, dict):
        return {k: enc(v) for k, v in r.items()}
    if isinstance(r, np.ndarray) and r.dtype == object:
        return [enc(x) for x in r.ravel()]
    if hasattr(r, "__dataclass_fields__"):
        return {f: enc(getattr(r, f)) for f in r.__dataclass_fields__}
    if isinstance(r, np.ndarray):
        if r.size > 400:
            b = np.ascontiguousarray(r, dtype=float).tobytes()
            return [list(r.shape), zlib.crc32(b), zlib.adler32(b), float(r.ravel()[0]).hex(), float(r.ravel()[-1]).hex()]
        return [list(r.shape)] + [float(x).hex() for x in r.ravel().astype(float)]
    if hasattr(r, "to_numpy"):
        return enc(r.to_numpy())
    return float(r).hex()


# ---------------------------------------------------------------- inputs
def rs(seed):
    return est.np.random.RandomState(seed)


def i_returns(a):
    np = est.np
    c = est.returns(a["T"], a["s"] + 50, "garch")
    return {"x": est.returns(a["T"], a["s"], "garch") + 0.5 * c, "y": est.returns(a["T"], a["s"] + 1, "iid") + 0.3 * c,
            "fx": (0.6 * est.returns(a["T"], a["s"]) + 0.7 * c) / 100, "mx": c / 100,
            "panel": np.stack([(est.returns(a["T"], a["s"] + 7 * i) + 0.5 * c) / 100 for i in range(3)], axis=1),
            "W": np.array([3.0, 5.0, 2.0]), "D": np.array([20.0, 90.0, 11.0])}


def i_pin(a):
    r = rs(a["s"])
    lo = a["s"] % 3
    return {"B": r.poisson([20, 40, 8][lo], a["T"] // 4).astype(float), "S": r.poisson([25, 10, 9][lo], a["T"] // 4).astype(float)}


def i_dip(a):
    np = est.np
    r = rs(a["s"])
    n = 2 + a["s"] % 3
    m = r.normal(size=(n, 3 * n))
    return {"p": r.uniform(0.05, 0.45, n), "c": np.corrcoef(m)}


def i_book(a):
    r = rs(a["s"])
    n = a["T"]
    mid = r.uniform(9, 11, n)
    return {"mid": mid, "later": mid + r.normal(0, 0.02, n), "price": mid + r.normal(0, 0.03, n), "bid": mid - r.uniform(0.01, 0.05, n),
            "ask": mid + r.uniform(0.01, 0.05, n), "vol": r.randint(0, 50, n).astype(float), "dir": r.choice([-1.0, 1.0], n),
            "bs": r.uniform(50, 120, (n, 5)), "as": r.uniform(50, 120, (n, 5)), "bp": mid[:, None] - r.uniform(0.01, 0.1, (n, 5)).cumsum(axis=1),
            "ap": mid[:, None] + r.uniform(0.01, 0.1, (n, 5)).cumsum(axis=1), "zero": est.np.zeros(n)}


def i_panel(a):
    r = rs(a["s"])
    n = a["T"]
    return {"ar": r.normal(size=(4, n)) + 0.5 * r.normal(size=n), "f": r.normal(size=n), "m": r.normal(size=n), "sdv": r.normal(0, 1e6, n),
            "roas": r.normal(0.01, 0.01, n), "mes": r.uniform(0, 0.1, 6), "lvg": r.uniform(5, 20, 6), "ses": r.uniform(-0.5, 0, 6)}


def i_merton(a):
    np = est.np
    r = rs(a["s"])
    N, n2 = 10, 40
    fs = (np.arange(-0.8, 0.85, 0.4) / (0.2 * np.sqrt(0.5) * np.sqrt(10))).reshape(-1, 1)
    p = [0.01, 10, 0.6 + 0.02 * (a["s"] % 4), 5, 0.63 * np.exp(0.05), 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
    xfs, xsig, xr, xF = np.meshgrid(fs[:, 0], [0.2], [0.01], [0.6, 0.8 + 0.05 * (a["s"] % 3)], indexing="ij")
    return {"fs": fs, "param": p, "N": N, "n2": n2, "w": r.normal(size=(n2, 3 * N)), "w1": r.normal(size=(n2, N)), "x": r.normal(size=64),
            "xfs": xfs, "xsig": xsig, "xr": xr, "xF": xF, "f": r.normal(size=(5, 3)) * 0.1}


# ---------------------------------------------------------------- jobs: name -> (inputs, object or None, call)
def uni(cls):
    def new(i, a):
        return getattr(est.A, cls)(i["x"], bool(a["v"] % 2))

    def call(o, i, a):
        p = o.fit()
        return [bool(o.estimation_success), enc(p), enc(o.sigma2), enc(o.resids)] if o.estimation_success else [False]

    return i_returns, new, call


def multi(cls):
    def new(i, a):
        return getattr(est.A, cls)(i["x"], i["y"])

    def call(o, i, a):
        p = o.fit()
        return [True, enc(p), enc(o.model1.sigma2), enc(o.model2.resids)] if o.estimation_success else [False]

    return i_returns, new, call


def J(inputs, call, new=None):
    return inputs, new, call


def big(a):
    """0: a small simulation; 1: a larger one; 2: one of the default size."""
    return a.get("big", 0)


JOBS = {
    "GARCHModel": uni("GARCHModel"), "GJRGARCHModel": uni("GJRGARCHModel"),
    "GARCHModel_CCC": multi("GARCHModel_CCC"), "GARCHModel_DCC": multi("GARCHModel_DCC"), "GJRGARCHModel_DCC": multi("GJRGARCHModel_DCC"),
    "LRMES": J(i_returns, lambda o, i, a: o.estimate(h=[4 + a["v"] % 3, 30, 22][big(a)], S=[20, 1100, 10_000][big(a)], C=[-0.005, -0.02, -0.1][big(a)], random_seed=a["r"]), lambda i, a: est.Me.LRMES(i["fx"], i["mx"])),
    "SRISK": J(i_returns, lambda o, i, a: o.estimate(k=0.08, lrmes_h=4, lrmes_S=[15, 1100, 10_000][big(a)], lrmes_C=-0.005, lrmes_random_seed=a["r"]),
               lambda i, a: est.Me.SRISK(i["fx"], i["mx"], 3.0, 20.0)),
    "SRISK panel": J(i_returns, lambda o, i, a: o.estimate(k=0.08 + 0.02 * (a["v"] % 2), lrmes_h=4, lrmes_S=[12, 300, 1100][big(a)], lrmes_C=-0.005, lrmes_random_seed=a["r"],
                                                           aggregate_srisk=a["v"] % 3 == 0),
                     lambda i, a: est.Me.SRISK(i["panel"], i["mx"], i["W"], i["D"])),
    "PIN EHO2010": J(i_pin, lambda o, i, a: [enc(o.estimate("EHO2010")), bool(o.estimation_success)], lambda i, a: est.Me.PIN(i["B"], i["S"])),
    "PIN LK2011": J(i_pin, lambda o, i, a: [enc(o.estimate("LK2011")), bool(o.estimation_success)], lambda i, a: est.Me.PIN(i["B"], i["S"])),
    "DistressInsurancePremium": J(i_dip, lambda o, i, a: o.estimate([0.1, 0.15, 0.3, 0.6][a["v"] % 4], a["r"], [120, 70_000, 500_000][big(a)], [12, 130, 1000][big(a)]),
                                  lambda i, a: est.Me.DistressInsurancePremium(i["p"], i["c"])),
    "AbsorptionRatio": J(i_panel, lambda o, i, a: [o.estimate(0.2 + 0.2 * (a["v"] % 4)), o.estimate(0.5)], lambda i, a: est.Me.AbsorptionRatio(i["ar"])),
    "ContingentClaimAnalysis": J(i_panel, lambda o, i, a: o.estimate(5 + a["s"] % 3, 1.2 - 0.1 * (a["v"] % 2), 0.02, 10, 1.5, 100 + 50 * (a["s"] % 4)),
                                 lambda i, a: est.Me.ContingentClaimAnalysis()),
    "MarginalExpectedShortfall": J(i_panel, lambda o, i, a: o.estimate([0.05, 0.1, 0.3][a["v"] % 3]), lambda i, a: est.Me.MarginalExpectedShortfall(i["f"], i["m"])),
    "SystemicExpectedShortfall": J(i_panel, lambda o, i, a: o.estimate(), lambda i, a: est.Me.SystemicExpectedShortfall(i["mes"], i["lvg"], i["ses"], 0.04, 11.0)),
    "kyle_lambda": J(i_panel, lambda o, i, a: est.Me.kyle_lambda(i["f"], i["sdv"])),
    "blsprice": J(i_panel, lambda o, i, a: est.Me.blsprice(100.0 + a["s"], 95.0, 0.1, 0.25, 0.5, [0.0, 0.02][a["v"] % 2])),
    "z_score": J(i_panel, lambda o, i, a: est.Me.z_score(0.2, 0.6, i["roas"])),
    "DGGW_ask_slope": J(i_book, lambda o, i, a: L.lob_slope.DGGW_ask_slope(i["as"], i["ap"][:, 4], i["mid"])),
    "DGGW_bid_slope": J(i_book, lambda o, i, a: L.lob_slope.DGGW_bid_slope(i["bs"], i["bp"][:, 4], i["mid"])),
    "DGGW_bid_side_slope_difference": J(i_book, lambda o, i, a: L.lob_slope.DGGW_bid_side_slope_difference(i["bs"], i["bp"])),
    "DGGW_ask_side_slope_difference": J(i_book, lambda o, i, a: L.lob_slope.DGGW_ask_side_slope_difference(i["as"], i["ap"])),
    "DGGW_scaled_depth_difference": J(i_book, lambda o, i, a: L.lob_slope.DGGW_scaled_depth_difference(i["bs"], i["as"])),
    "quoted_spread": J(i_book, lambda o, i, a: L.spread.quoted_spread(i["bid"], i["ask"], a["v"] % 2 == 0)),
    "effective_spread": J(i_book, lambda o, i, a: L.spread.effective_spread(i["price"], i["mid"], i["zero"] if a["v"] % 4 == 3 else i["vol"],
                                                                           i["dir"] if a["v"] % 2 else None, a["v"] % 4 < 2)),
    "realized_spread": J(i_book, lambda o, i, a: L.spread.realized_spread(i["price"], i["later"], i["mid"], i["zero"] if a["v"] % 4 == 3 else i["vol"],
                                                                         i["dir"] if a["v"] % 2 else None, a["v"] % 4 < 2)),
    "simple_price_impact": J(i_book, lambda o, i, a: L.price_impact.simple_price_impact(i["price"], i["later"], i["mid"], i["zero"] if a["v"] % 4 == 3 else i["vol"],
                                                                                       i["dir"] if a["v"] % 2 else None, a["v"] % 4 < 2)),
    "mod_merton_computation": J(i_merton, lambda o, i, a: L.mc.mod_merton_computation(i["fs"], i["param"], i["N"], i["n2"] * [1, 7, 30][big(a)], i["w"] if a["v"] % 2 and not big(a) else None, a["r"])),
    "mod_single_cohort_computation": J(i_merton, lambda o, i, a: L.sc.mod_single_cohort_computation(i["fs"], i["param"], i["N"], i["n2"] * [1, 7, 30][big(a)], i["w1"] if a["v"] % 2 and not big(a) else None, a["r"])),
    "mod_single_cohort_solution": J(i_merton, lambda o, i, a: L.ss.mod_single_cohort_solution([i["fs"], 0.6], i["param"], i["N"], i["n2"] * [1, 7, 30][big(a)], 0.1, 0.3)),
    "mod_merton_create_lookup": J(i_merton, lambda o, i, a: L.cl.mod_merton_create_lookup(0.005, 0.002, 10, 5, 0.63, 0.5, 0.66, i["xfs"], i["xr"], i["xF"], i["xsig"], i["N"], i["n2"])),
    "mod_single_merton_create_lookup": J(i_merton, lambda o, i, a: L.sl.mod_single_merton_create_lookup(0.005, 0.002, 10, 5, 0.63, 0.5, 0.66, i["xfs"], i["xr"], i["xF"], i["xsig"], i["N"], i["n2"])),
    "fftsmooth": J(i_merton, lambda o, i, a: L.ff.fftsmooth(i["x"], 8)),
    "loan_payoff": J(i_merton, lambda o, i, a: L.lp.loan_payoff(0.8, i["f"], -0.1, 0.5, 0.2, 10)),
    "find_face_value_indiv": J(i_merton, lambda o, i, a: L.fv.find_face_value_indiv(0.02, 0.8, 0.05, 0.2, 10, 0.01, 0.005)),
    "merton_solution": J(i_merton, lambda o, i, a: L.ms.merton_solution((0.7, 0.3 - 0.4 * (a["v"] % 2)), 0.1, 0.7, 0.01, 0.002, 5.0, 0.6)),
}
ESTIMATORS = ["GARCHModel", "GJRGARCHModel", "GARCHModel_CCC", "GARCHModel_DCC", "GJRGARCHModel_DCC", "LRMES", "SRISK", "SRISK panel", "PIN EHO2010", "PIN LK2011",
              "DistressInsurancePremium"]
BIG = ["LRMES", "SRISK", "SRISK panel", "DistressInsurancePremium", "mod_merton_computation", "mod_single_cohort_computation", "mod_single_cohort_solution"]
SIMILAR = ["GARCHModel", "GJRGARCHModel", "GARCHModel_DCC", "LRMES", "SRISK", "PIN EHO2010", "PIN LK2011"]
SHORT = [j for j in JOBS if j not in ESTIMATORS and not j.startswith("mod_")]


def gen(rng, names=None):
    s = rng.randrange(3)
    a = {"job": rng.choice(names or list(JOBS)), "s": s, "T": [40, 24, 30][s], "v": rng.randrange(4), "r": rng.choice([0, 42])}
    if a["job"] in BIG and rng.random() < 0.04:
        a["big"] = rng.choice([1, 1, 2])
    elif a["job"] in SIMILAR and rng.random() < 0.06:
        a["in"] = "shuffled"
    return a


VARIANTS = ["strided", "reversed", "float32", "int", "nan", "series", "list", "short", "readonly", "zeros", "inf", "ties", "constant", "negative", "tiny", "shuffled", "standard"]
LONG = "long"  # for computations whose cost is small


def vary(i, how):
    """The same inputs in another memory layout, number type or container."""
    np = est.np
    import pandas as pd

    def one(x):
        if not isinstance(x, np.ndarray):
            return x
        if how == "strided":
            b = np.zeros((2 * x.shape[0],) + x.shape[1:])
            b[::2] = x
            return b[::2] if x.ndim < 2 else np.asfortranarray(x)
        if how == "reversed":
            return x[::-1].copy()[::-1]
        if how == "float32":
            return x.astype(np.float32)
        if how == "int":
            return np.round(x * 10).astype(int)
        if how == "nan":
            x = x.copy()
            x.ravel()[1:2] = np.nan
            return x
        if how == "series":
            return pd.Series(x) if x.ndim == 1 else pd.DataFrame(x) if x.ndim == 2 else x
        if how == "list":
            return x.tolist()
        if how == "short":
            return x[:3].copy()
        if how == "tiny":
            return x[:1].copy()
        if how == "zeros":
            x = x.copy()
            x.ravel()[1::3] = 0
            return x
        if how == "inf":
            x = x.copy()
            x.ravel()[1:3] = [np.inf, -np.inf][: len(x.ravel()[1:3])]
            return x
        if how == "ties":
            return np.round(x, 1)
        if how == "constant":
            return np.full(x.shape, x.ravel()[0])
        if how == "negative":
            return -x
        if how == "shuffled":  # the same numbers, the same ends
            y = x.copy()
            k = rs(1).permutation(max(0, x.size - 2))
            y.ravel()[1:-1] = x.ravel()[1:-1][k]
            return y
        if how == "standard":  # the same means and variances for all data
            return (x - x.mean(axis=-1, keepdims=True)) / x.std(axis=-1, keepdims=True)
        if how == LONG:
            return np.concatenate([x] * 64)
        x = x.copy()
        x.flags.writeable = False
        return x

    return {k: one(v) for k, v in i.items()} if how else i


def key(a):
    return (a["job"], a["s"], a["T"], a["v"], a["r"], a.get("in", ""), big(a))


def inputs(a):
    return vary(JOBS[a["job"]][0](a), a.get("in"))


def new(a, i):
    n = JOBS[a["job"]][1]
    return n(i, a) if n else None


def raw(a, o, i):
    return JOBS[a["job"]][2](o, i, a)


def call(a, o, i):
    return enc(raw(a, o, i))


def policy(current):
    """PIN's 125 minimisations are replaced by a quick optimiser whose result follows from the starting values."""
    def f(recd):
        a = current(recd["tid"])
        if a and a["job"].startswith("PIN"):
            return {"what": "stub", "seed": zlib.crc32(repr(recd["x0"]).encode()), "n": 2, "after": 0, "any": False}
        return None

    return f


def outcome(fn):
    """["ok", value] or ["raised", type name]; deadlocks pass."""
    try:
        return ["ok", fn()]
    except pysim.Deadlock:
        raise
    except BaseException as e:  # noqa
        return ["raised", type(e).__name__]


def reference(a):
    """What the job gives in a process of its own."""
    def f():
        import warnings

        warnings.simplefilter("ignore")
        s = pysim.Sim({"mode": "none", "budget": 20_000_000})
        pysim.MIN_POLICY = policy(lambda t: a)
        i = inputs(a)
        r = s.run([lambda: outcome(lambda: call(a, new(a, i), i))])
        return r[0][1]

    return est.reference(("job",) + key(a), f)


def digest_inputs(i):
    """Content of all inputs, bit for bit."""
    np = est.np
    h = 0
    for k in sorted(i):
        v = i[k]
        if isinstance(v, np.ndarray):
            h = zlib.crc32(v if v.flags.c_contiguous else v.tobytes(), zlib.crc32(f"{k}{v.shape}{v.dtype}{v.strides}".encode(), h))
        elif hasattr(v, "to_numpy"):
            h = zlib.crc32(np.ascontiguousarray(v.to_numpy()), zlib.crc32(f"{k}{v.shape}{v.index!r}{getattr(v, 'columns', '')!r}".encode(), h))
        else:
            h = zlib.crc32(repr((k, v)).encode(), h)
    return h


__all__ = ["native", "random"]
