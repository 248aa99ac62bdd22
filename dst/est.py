"""Shared by the checks of the estimators: data, reference computations, comparisons."""
import math

from dst import build, native, pysim

np = None
A = Me = None


def prepare(bdir, variant="plain", block=(), deliver=("/scipy/optimize/", "/scipy/_lib/_util.py"), measures=True):
    """Installs the seams, then imports numpy, scipy and frds."""
    global np, A, Me
    import numpy
    import scipy.optimize  # noqa

    np = numpy
    build.install_finder(bdir, variant, block)
    pysim.install(deliver)
    import frds.algorithms

    A = frds.algorithms
    if measures:
        import frds.measures

        Me = frds.measures


# ---------------------------------------------------------------- data
def shuffled(x):
    y = x.copy()
    y[1:-1] = x[1:-1][np.random.RandomState(1).permutation(len(x[1:-1]))]
    return y


def returns(T, seed, kind="garch", scale=1.0):
    if kind.endswith("~"):  # the same numbers and the same ends, in another order
        return shuffled(returns(T, seed, kind[:-1], scale))
    r = np.random.RandomState(seed % (2**32))
    z = r.normal(size=T)
    if kind == "iid":
        x = z + 0.05
    elif kind == "outlier":
        x = z + 0.02
        x[r.randint(T)] += 25
    elif kind == "constant":
        x = np.full(T, 0.25)
    elif kind == "zero":
        x = np.zeros(T)
    elif kind == "alternating":
        x = np.where(np.arange(T) % 2 == 0, 1.0, -1.0) + 0.0
    elif kind == "trend":
        x = np.linspace(-1, 1, T)
    else:
        x = np.empty(T)
        h = 1.0
        for t in range(T):
            x[t] = 0.05 + math.sqrt(h) * z[t]
            h = 0.1 + 0.1 * x[t] ** 2 + 0.8 * h
    return x * scale


def layout(x, how):
    """The same numbers in another form."""
    if how == "list":
        return x.tolist()
    if how == "float32":
        return x.astype(np.float32)
    if how == "strided":
        b = np.full(2 * len(x), 1e9)
        b[::2] = x
        return b[::2]
    if how == "reversed":
        return x[::-1].copy()[::-1]
    if how == "column":
        b = np.full((len(x), 3), -1e9)
        b[:, 1] = x
        return b[:, 1]
    if how == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    if how == "int":
        return np.round(x * 10).astype(np.int64)
    return x


# ---------------------------------------------------------------- the models, from their documentation
def backcast(r):
    tau = min(75, len(r))
    w = [0.94**i for i in range(tau)]
    s = sum(w)
    return sum(w[i] / s * float(r[i]) ** 2 for i in range(tau))


def bounds(r):
    T = len(r)
    v = [backcast(r)]
    for t in range(1, T):
        v.append(0.94 * v[-1] + 0.06 * float(r[t - 1]) ** 2)
    lo = float(np.var(r)) / 1e8
    hi = 1e7 * (1 + float((np.asarray(r) ** 2).max()))
    v = [min(max(x, lo), hi) for x in v]
    return [(x / 1e6, x * 1e6) for x in v]


def bounded(s, b):
    lo, hi = b
    if not s >= lo:
        s = lo if s < lo else s
    if s > hi:
        s = hi + math.log(s / hi) if not math.isinf(s) else hi + 1000
    return s


def variances(p, r, bc, vb):
    """p: (omega, alpha, beta) or (omega, alpha, gamma, beta)."""
    if len(p) == 3:
        o, a, b = p
        g = 0.0
    else:
        o, a, g, b = p
    s = [o + (a + g / 2 + b) * bc]
    for t in range(1, len(r)):
        x2 = float(r[t - 1]) ** 2
        v = o + a * x2 + b * s[-1] + (g * x2 if r[t - 1] < 0 else 0.0)
        s.append(bounded(v, vb[t]))
    return np.array(s)


def loglik(r, s):
    return float(np.sum(-0.5 * (np.log(2 * np.pi) + np.log(s) + np.asarray(r) ** 2 / s)))


def univariate(p, x, zero):
    """(log-likelihood, variances, residuals) of the parameters on the returns x."""
    x = np.asarray(x, dtype=float)
    base = x if zero else x - x.mean()
    r = x - p[0]
    s = variances(p[1:], r, backcast(base), bounds(base))
    return loglik(r, s), s, r


def rho_dcc(a, b, z1, z2):
    T = len(z1)
    q1, q2, q12 = float(np.mean(z1 * z1)), float(np.mean(z2 * z2)), float(np.mean(z1 * z2))
    x, y, xy = q1, q2, q12
    out = [xy / math.sqrt(x * y)]
    for t in range(1, T):
        x = (1 - a - b) * q1 + a * z1[t - 1] ** 2 + b * x
        y = (1 - a - b) * q2 + a * z2[t - 1] ** 2 + b * y
        xy = (1 - a - b) * q12 + a * z1[t - 1] * z2[t - 1] + b * xy
        out.append(xy / math.sqrt(x * y))
    return np.array(out)


def corr_loglik(rho, z1, z2):
    rho = np.clip(rho, -0.99, 0.99)
    return float(np.sum(-0.5 * (-(z1**2 + z2**2) + np.log(1 - rho**2) + (z1**2 + z2**2 - 2 * rho * z1 * z2) / (1 - rho**2))))


def ccc_loglik(p, x1, x2):
    mu1, o1, a1, b1, mu2, o2, a2, b2, rho = p
    r1, r2 = x1 - mu1, x2 - mu2
    s1 = variances((o1, a1, b1), r1, backcast(r1), bounds(r1))
    s2 = variances((o2, a2, b2), r2, backcast(r2), bounds(r2))
    z1, z2 = r1 / np.sqrt(s1), r2 / np.sqrt(s2)
    return float(np.sum(-0.5 * (2 * np.log(2 * np.pi) + np.log(s1 * s2 * (1 - rho**2)) + (z1**2 + z2**2 - 2 * rho * z1 * z2) / (1 - rho**2))))


# ---------------------------------------------------------------- comparing
def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol * max(1.0, float(np.max(np.abs(b))) if b.size and np.isfinite(b).all() else 1.0)))


def hexes(v):
    return [float(x).hex() for x in np.asarray(v, dtype=float).ravel()]


FIELDS = {
    "GARCHModel": ["mu", "omega", "alpha", "beta"],
    "GJRGARCHModel": ["mu", "omega", "alpha", "gamma", "beta"],
    "GARCHModel_CCC": ["mu1", "omega1", "alpha1", "beta1", "mu2", "omega2", "alpha2", "beta2", "rho"],
    "GARCHModel_DCC": ["mu1", "omega1", "alpha1", "beta1", "mu2", "omega2", "alpha2", "beta2", "a", "b"],
    "GJRGARCHModel_DCC": ["mu1", "omega1", "alpha1", "gamma1", "beta1", "mu2", "omega2", "alpha2", "gamma2", "beta2", "a", "b"],
}


def params(m, p=None):
    p = m.parameters if p is None else p
    return [float(getattr(p, f)) for f in FIELDS[type(m).__name__] + ["loglikelihood"]]


def snapshot(m):
    """The estimate of a model, bit for bit."""
    d = {"parameters": hexes(params(m))}
    if type(m).__name__ in ("GARCHModel", "GJRGARCHModel"):
        d["resids"] = hexes(m.resids)
        d["sigma2"] = hexes(m.sigma2)
    else:
        d["model1"] = snapshot(m.model1)
        d["model2"] = snapshot(m.model2)
        if "DCC" in type(m).__name__:
            d["correlations"] = hexes(m.conditional_correlations(m.parameters.a, m.parameters.b))
    return d


def differing(a, b, at=""):
    for k in a:
        if isinstance(a[k], dict):
            r = differing(a[k], b[k], k + ": ")
            if r:
                return r
        elif a[k] != b[k]:
            f = [(float.fromhex(x), float.fromhex(y)) for x, y in zip(a[k], b[k]) if x != y][:1]
            return f"{at}{k}" + (f" ({f[0][0]:.12g} instead of {f[0][1]:.12g})" if f else " (another length)")
    return None


TOL = 5e-5  # by how much SLSQP (accuracy 1e-6, relaxed tenfold at its exits) may violate a constraint and still succeed


def check_univariate(m, x, zero):
    """None, or what is wrong with an estimate that is reported as a success."""
    p = params(m)
    ll, p = p[-1], p[:-1]
    if not all(map(math.isfinite, p + [ll])):
        return f"success with parameters {p}, log-likelihood {ll}"
    lo = 0.0 if len(p) == 4 else 1e-6
    pers = p[2] + p[3] if len(p) == 4 else p[2] + p[3] / 2 + p[4]
    if p[1] < 1e-6 - 1e-9 or any(not lo - TOL <= v <= 1 + TOL for v in p[2:]) or pers > 1 + TOL:
        return f"parameters outside the model's constraints: {p}"
    if zero and p[0] != 0.0:
        return f"mean parameter {p[0]} in a zero-mean model"
    rl, rs, rr = univariate(p, x, zero)
    if np.shape(m.resids) != rr.shape or not close(m.resids, rr):
        return "residuals are not the returns less the mean parameter"
    if np.shape(m.sigma2) != rs.shape or not close(m.sigma2, rs, rtol=1e-6):
        i = int(np.argmax(np.abs(np.asarray(m.sigma2) - rs)))
        return f"conditional variances are not those of the parameters: {float(m.sigma2[i])!r} at {i}, should be {float(rs[i])!r}"
    if not math.isclose(ll, rl, rel_tol=1e-6, abs_tol=1e-6):
        return f"log-likelihood {ll!r} is not that of the parameters, {rl!r}"
    return None


def check_multivariate(m, x1, x2):
    """None, or what is wrong with a multivariate estimate that is reported as a success."""
    name = type(m).__name__
    if not (m.model1.estimation_success and m.model2.estimation_success):
        return "success although a univariate model has none"
    for i, (u, x) in enumerate(((m.model1, x1), (m.model2, x2)), 1):
        w = check_univariate(u, x, getattr(u, "zero_mean", False))
        if w:
            return f"model{i}: {w}"
    p = params(m)
    ll, p = p[-1], p[:-1]
    if not all(map(math.isfinite, p + [ll])):
        return f"success with parameters {p}, log-likelihood {ll}"
    if name == "GARCHModel_CCC":
        for o, a, b in (p[1:4], p[5:8]):
            if o < 1e-6 - 1e-9 or not -TOL <= a <= 1 + TOL or not -TOL <= b <= 1 + TOL or a + b > 1 + TOL:
                return f"parameters outside the model's constraints: {p}"
        if abs(p[8]) > 0.99 + TOL:
            return f"correlation {p[8]} outside the model's bounds"
        rl = ccc_loglik(p, np.asarray(x1, dtype=float), np.asarray(x2, dtype=float))
    else:
        a, b = p[-2:]
        if not -TOL <= a <= 1 + TOL or not -TOL <= b <= 1 + TOL or a + b > 1 + TOL:
            return f"parameters outside the model's constraints: a={a}, b={b}"
        k = (len(p) - 2) // 2
        if p[:k] != params(m.model1)[:-1] or p[k:2 * k] != params(m.model2)[:-1]:
            return "the univariate parameters are not those of the univariate models"
        z1 = np.asarray(m.model1.resids) / np.sqrt(m.model1.sigma2)
        z2 = np.asarray(m.model2.resids) / np.sqrt(m.model2.sigma2)
        rho = rho_dcc(a, b, z1, z2)
        got = m.conditional_correlations(a, b)
        if not close(got, rho, rtol=1e-6):
            return "conditional correlations are not those of the parameters"
        rl = params(m.model1)[-1] + params(m.model2)[-1] + corr_loglik(rho, z1, z2)
    if not math.isclose(ll, rl, rel_tol=1e-6, abs_tol=1e-6):
        return f"log-likelihood {ll!r} is not that of the parameters, {rl!r}"
    return None


_cache = {}


def reference(key, fn):
    """fn() in a process of its own, once per key."""
    if key not in _cache:
        st, v = native.in_fork(fn)
        if st != "ok":
            raise RuntimeError(f"reference computation ended: {v}")
        _cache[key] = v
    return _cache[key]


# ---------------------------------------------------------------- plans for the optimiser
def gen_plan(rng, real=0.0):
    """What becomes of one minimisation."""
    x = rng.random()
    if x < real:
        return None
    what = rng.choice(["fail", "fail", "raise", "raise_eval", "limit", "stub", "stub"])
    p = {"what": what}
    if what == "fail":
        p.update(early=rng.random() < 0.4, nan=rng.random() < 0.5)
    elif what == "raise":
        p.update(exc=rng.choice(["MemoryError", "ValueError", "FloatingPointError", "KeyboardInterrupt"]))
    elif what == "raise_eval":
        p.update(exc=rng.choice(["MemoryError", "FloatingPointError", "ZeroDivisionError", "KeyboardInterrupt", "TimeoutError"]),
                 eval=rng.choice([0, 1, 2, 5, 10, 20, 40, 80]))
    elif what == "limit":
        p.update(n=rng.choice([1, 2, 5]))
    elif what == "stub":
        p.update(seed=rng.getrandbits(30), n=rng.choice([1, 3, 8]), after=rng.choice([0, 1, 3]), any=rng.random() < 0.7)
    return p
