"""C13: PIN reports the best successful candidate of its grid, or no success."""
import math
import random
import zlib
from itertools import product

from dst import est, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded programs of PIN estimations (both methods, new, used and copied objects) in which each minimisation of the grid search ends in a candidate (good or bad, in any order), "
        "fails (with a point that may be better than all candidates) or raises, and the call may be interrupted. A success must be the best candidate of the successful "
        "minimisations recorded, started from the whole Yan-Zhang grid, with its log-likelihood (recomputed from the Poisson mixture), PIN and method; without one there is no success. "
        "Non-trivial: a minimisation failed or raised, an interrupt fired or an object was used again.")
MEASURE = "program shape with the number of failed minimisations, the place of each interrupt and the candidate chosen"
REAL = ["frds.measures PIN", "scipy.optimize L-BFGS-B (in the scenarios where it is not replaced)"]
STUB = ["the optimiser, in most scenarios", "delivery of signals"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["a successful optimiser returns a point within the bounds with its finite value",
               "an interrupt before the first minimisation may leave the object as it was before the call"]
COUNT = {"quick": 2600, "thorough": 20000}


def prepare(bdir):
    est.prepare(bdir)


def generate(seed):
    rng = random.Random(f"C13/{seed}")
    real = rng.random() < 0.04
    sc = {"seed": seed, "T": rng.choice([2, 3, 4]) if real else (rng.choice([1, 2, 5, 12]) if rng.random() < 0.93 else rng.choice([60, 61, 130, 260])), "dseed": rng.randrange(2 if real else 40), "real": real,
          "level": rng.choice([[3, 2]] if real else [[20, 25], [3, 2], [200, 300], [40, 10], [1, 1], [10, 30]]), "form": rng.choice(["float", "int", "strided", "readonly"]),
          "burst": rng.random() < 0.4}
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        op = {"m": rng.choice(["EHO2010", "LK2011"]), "on": rng.choice(["new", "used", "used", "used", "deepcopy", "pickle"]),
              "plan": {"seed": rng.getrandbits(30), "fail": rng.choice([0, 0, 0.1, 0.5, 0.9, 1.0]), "n": rng.choice([1, 2, 4])}}
        x = rng.random()
        if x < 0.2:
            op["plan"].update(raise_at=rng.choice([0, 1, 5, 30, 60]), exc=rng.choice(["MemoryError", "ValueError", "FloatingPointError", "KeyboardInterrupt", "TimeoutError"]))
        elif x < 0.5:
            op["fault"] = pysim.gen_fault(rng, after=(0, 0, 1, 3, 20))
        elif x < 0.55:
            op["m"] = rng.choice(["EHO", "", "lk2011"])
        if real:
            op["plan"] = {k: v for k, v in op["plan"].items() if k in ("raise_at", "exc")}
        ops.append(op)
    return {**sc, "ops": ops}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ the model, from its documentation
def data(sc):
    np = est.np
    r = np.random.RandomState(sc["dseed"])
    lb, ls = sc["level"]
    T = sc["T"]
    B, S = r.poisson(lb, T), r.poisson(ls, T)
    if sc["burst"]:
        k = r.randint(0, 3, T)
        B, S = B + (k == 1) * r.poisson(lb, T), S + (k == 2) * r.poisson(ls, T)
    B, S = np.maximum(B, 1), np.maximum(S, 1)
    if sc["form"] == "int":
        return B.astype(np.int64), S.astype(np.int64)
    B, S = B.astype(float), S.astype(float)
    if sc["form"] == "strided":
        return est.layout(B, "strided"), est.layout(S, "column")
    if sc["form"] == "readonly":
        return est.layout(B, "readonly"), est.layout(S, "readonly")
    return B, S


def grid(B, S):
    """Yan and Zhang (2012): starting values, with how close to being dropped each is."""
    g = [0.1, 0.3, 0.5, 0.7, 0.9]
    b, s = float(sum(B)) / len(B), float(sum(S)) / len(S)
    out = []
    for a, d, c in product(g, g, g):
        eb = c * b
        mu = (b - eb) / (a * (1 - d))
        es = s - a * d * mu
        out.append(((a, d, eb, es, mu), es))
    return out


def loglik(p, B, S):
    """Log-likelihood of the Poisson mixture, less log B! S!, day by day."""
    a, d, eb, es, mu = p
    out = 0.0

    def xlog(n, r):
        return 0.0 if n == 0 else -math.inf if r <= 0 else n * math.log(r)

    for b, s in zip(B, S):
        b, s = float(b), float(s)
        t = []
        for w, rb, rs in ((1 - a, eb, es), (a * d, eb, es + mu), (a * (1 - d), eb + mu, es)):
            if w > 0:
                t.append(math.log(w) - rb - rs + xlog(b, rb) + xlog(s, rs))
        m = max(t)
        if m == -math.inf:
            return -math.inf
        out += m + math.log(sum(math.exp(x - m) for x in t))
    return out


def underflow(p, B, S):
    """Days on which the terms of EHO2010's factorisation leave the range of floating-point numbers."""
    a, d, eb, es, mu = p
    n = 0
    try:
        xs, xb = math.log(es / (mu + es)), math.log(eb / (mu + eb))
    except (ValueError, ZeroDivisionError):
        return len(B)
    for b, s in zip(B, S):
        m = min(b, s) + max(b, s) / 2
        t = [x for w, x in ((a * (1 - d), -mu + (s - m) * xs - m * xb), (a * d, -mu + (b - m) * xb - m * xs), (1 - a, (s - m) * xs + (b - m) * xb)) if w > 0]
        n += not -690 < max(t) < 690
    return n


FIELDS = ["alpha", "delta", "epsilon_b", "epsilon_s", "mu"]


def vec(p):
    return [float(getattr(p, f)) for f in FIELDS]


def state(p):
    return [bool(p.estimation_success), repr(p.parameters)]


def fresh(sc, m):
    def f():
        s = pysim.Sim({"mode": "none", "budget": 40_000_000})
        B, S = data(sc)
        p = est.Me.PIN(B, S)
        s.run([lambda: p.estimate(m)])
        return state(p)

    return est.reference(("C13", m, sc["T"], sc["dseed"], tuple(sc["level"]), sc["form"], sc["burst"]), f)


def execute(sc):
    refs = {op["m"]: fresh(sc, op["m"]) for op in sc["ops"] if op["m"] in ("EHO2010", "LK2011")} if sc["real"] else {}
    st, v = native.in_fork(lambda: run(sc, refs))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def run(sc, refs):
    import copy
    import pickle
    import warnings

    np = est.np
    warnings.simplefilter("ignore")
    sim = pysim.Sim({"mode": "none", "budget": 40_000_000})
    B, S = data(sc)
    B0, S0 = B.copy(), S.copy()
    G = grid(B0, S0)
    viol, trace = [], []
    probes = {"successes checked": 0, "estimations without success": 0, "interrupted": 0, "used again": 0, "minimisations": 0}

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": detail[:1000]})

    def body():
        p = est.Me.PIN(B, S)
        used = False
        for n, op in enumerate(sc["ops"]):
            if op["on"] == "new":
                p, used = est.Me.PIN(B, S), False
            elif op["on"] == "deepcopy":
                p = copy.deepcopy(p)
            elif op["on"] == "pickle":
                p = pickle.loads(pickle.dumps(p))
            plan = op["plan"]
            del pysim.MIN_LOG[:]
            cnt = [0]

            def policy(recd):
                c = cnt[0]
                cnt[0] += 1
                if c == plan.get("raise_at"):
                    return {"what": "raise", "exc": plan["exc"]}
                if sc["real"]:
                    return None
                h = zlib.crc32(repr((plan["seed"], [round(x, 6) for x in recd["x0"]])).encode())
                f = (h % 1000) / 1000 < plan["fail"]
                if f and h % 3 == 0:
                    return {"what": "fail", "early": True, "nan": h % 2 == 0}
                return {"what": "stub", "seed": h, "n": plan["n"], "after": h % 2, "any": h % 5 > 0, "fail": f}

            before = state(p)
            pysim.MIN_POLICY = policy
            me = sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
            raised = res = None
            try:
                res = p.estimate(op["m"])
            except pysim.Deadlock:
                raise
            except BaseException as e:  # noqa
                raised = e
            fired = me.fired
            sim.begin(-1)
            pysim.MIN_POLICY = None
            log = list(pysim.MIN_LOG)
            probes["minimisations"] += len(log)
            probes["used again"] += used
            who = f"estimation {n} ({op['m']}, {op['on'] if used or op['on'] == 'new' else 'first'}, {sc['level']}, T={sc['T']})"
            succ = [r for r in log if r.get("success") and math.isfinite(r["fun"])]
            threw = any("success" not in r for r in log)
            trace.append([op["m"], op["on"], len(log), len(succ), type(raised).__name__ if raised else state(p)[0], fired[2] if fired else ""])
            used = True
            if not (np.array_equal(B, B0) and np.array_equal(S, S0)):
                bad("trades changed", f"{who} changes the trades given to it")
            if op["m"] not in ("EHO2010", "LK2011"):
                if raised is None and not fired:
                    bad("no exception", f"{who}: an unknown method is accepted")
                continue
            ok = bool(p.estimation_success)
            if raised is not None:
                probes["interrupted"] += 1
                if not fired and not threw:
                    bad("unexpected exception", f"{who} raises {type(raised).__name__}: {raised}")
                elif ok and (log or state(p) != before):
                    bad("success after an interruption", f"{who}, {'interrupted at ' + fired[2] if fired else 'its minimisation %d raising' % (len(log) - 1)}: success is reported "
                        f"with {p.parameters!r}" + (", the estimate from before" if state(p) == before else ""))
                elif math.isfinite(p.parameters.loglikelihood) and not ok and log:
                    bad("estimate without success", f"{who}, {'interrupted at ' + fired[2] if fired else 'its minimisation %d raising' % (len(log) - 1)}: the object holds {p.parameters!r}")
                continue
            if fired and threw:
                continue
            # it returned
            want = [(x, m) for x, m in G if m >= 0]
            got = sorted(tuple(r["x0"]) for r in log)
            sure = sorted(x for x, m in G if m > 1e-9 * (1 + S0.mean()))
            maybe = sorted(x for x, m in G if abs(m) <= 1e-9 * (1 + S0.mean()))
            near = [g for g in got if any(np.allclose(g, x, rtol=1e-9, atol=1e-9) for x in (maybe if maybe else ()))] if maybe else []
            rest = [g for g in got if g not in near]
            if len(rest) != len(sure) or (sure and not np.allclose(np.array(sorted(map(rnd, rest))), np.array(sorted(map(rnd, sure))), rtol=1e-6, atol=1e-6)):
                bad("not the grid", f"{who}: {len(got)} minimisations, the grid has {len(want)} starting values" if len(rest) != len(sure)
                    else f"{who}: the minimisations do not start from the grid, but from {rest[0]} and others; the grid has {sure[0]} and others")
                continue
            if res is not p.parameters and repr(res) != repr(p.parameters):
                bad("another estimate", f"{who} returns {res!r}, the object holds {p.parameters!r}")
                continue
            if not succ:
                probes["estimations without success"] += 1
                if ok:
                    bad("success without a candidate", f"{who}: none of {len(log)} minimisations succeeded; it reports success with {res!r}")
                elif math.isfinite(res.loglikelihood):
                    bad("estimate without success", f"{who}: none of {len(log)} minimisations succeeded; it returns {res!r}")
                continue
            if not ok:
                bad("no success with a candidate", f"{who}: {len(succ)} of {len(log)} minimisations succeeded; no success is reported")
                continue
            probes["successes checked"] += 1
            best = max(-r["fun"] for r in succ)
            tol = 1e-9 * (1 + abs(best))
            x = vec(res)
            if not abs(res.loglikelihood - best) <= tol:
                bad("not the best candidate", f"{who}: log-likelihood {res.loglikelihood!r}, the best of {len(succ)} successful minimisations has {best!r}")
            elif not any(np.allclose(x, r["x"], rtol=1e-12, atol=1e-12) for r in succ if -r["fun"] >= best - tol):
                bad("not the best candidate", f"{who}: parameters {x}, the best of {len(succ)} successful minimisations has {[r['x'] for r in succ if -r['fun'] >= best - tol][0]}")
            elif res.method != op["m"]:
                bad("not one estimate", f"{who}: the estimate says it is of method {res.method!r}")
            elif not (0 <= x[0] <= 1 and 0 <= x[1] <= 1 and min(x[2:]) >= 0):
                bad("outside the bounds", f"{who}: parameters {x}")
            else:
                den = x[0] * x[4] + x[2] + x[3]
                pin = x[0] * x[4] / den if den > 0 else math.nan
                if not (math.isclose(res.pin, pin, rel_tol=1e-9, abs_tol=1e-12) or (math.isnan(pin) and math.isnan(res.pin))):
                    bad("not one estimate", f"{who}: PIN {res.pin!r}; its parameters {x} give {pin!r}")
                ll = loglik(x, B0, S0)
                slack = 1e-6 * (1 + abs(ll)) + (0 if op["m"] == "LK2011" else 50 * underflow(x, B0, S0))
                if not abs(ll - res.loglikelihood) <= slack and min(x[2:]) > 0:
                    bad("not one estimate", f"{who}: log-likelihood {res.loglikelihood!r}; its parameters {x} have {ll!r}")
            if sc["real"] and not fired and not any(r["plan"] != "real" for r in log) and state(p) != refs[op["m"]]:
                bad("not as a fresh object", f"{who}: {state(p)}, a fresh object in another process: {refs[op['m']]}")

    r = sim.run([body])
    if sim.failed:
        viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
    elif r[0][0] == "raised":
        raise r[0][1]
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults), "probes": probes, "hashes": [repr(trace)],
                      "nontrivial": bool(set(sim.faults) - {"optimiser replaced"}) or probes["used again"] > 0 or any(t[3] < t[2] for t in trace),
                      "key": repr([trace, sc["T"], sc["dseed"], sc["level"]])},
            "summary": {"estimations": trace, "interrupts": sim.log}}


def rnd(x):
    return tuple(round(v, 7) for v in x)


def reductions(sc):
    ops = sc["ops"]
    for a in range(len(ops)):
        if len(ops) > 1:
            yield {**sc, "ops": ops[:a] + ops[a + 1:]}
    for a, op in enumerate(ops):
        if op.get("fault"):
            yield {**sc, "ops": ops[:a] + [{k: v for k, v in op.items() if k != "fault"}] + ops[a + 1:]}
        if op["plan"].get("fail"):
            yield {**sc, "ops": ops[:a] + [{**op, "plan": {**op["plan"], "fail": 0}}] + ops[a + 1:]}
        if "raise_at" in op["plan"]:
            yield {**sc, "ops": ops[:a] + [{**op, "plan": {k: v for k, v in op["plan"].items() if k not in ("raise_at", "exc")}}] + ops[a + 1:]}
        if op["on"] in ("deepcopy", "pickle"):
            yield {**sc, "ops": ops[:a] + [{**op, "on": "used"}] + ops[a + 1:]}
    if sc["T"] > 1 and not sc["real"]:
        yield {**sc, "T": 1}
    if sc["form"] != "float":
        yield {**sc, "form": "float"}
    if sc["burst"]:
        yield {**sc, "burst": False}
