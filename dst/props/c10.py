"""C10: LRMES and SRISK never turn a failed estimation into a number."""
import random
import zlib

from dst import est, jobs, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded programs of LRMES and SRISK calls (single firms, panels of two to four firms in any order, aggregates) on new and used objects; in each call a "
        "minimisation - the firm's or the market's univariate one, or the correlations' - may fail, hit its iteration limit or raise, once or from then on, or the call be interrupted. "
        "A call with a failed minimisation must raise; every other call must give capital factor x debt - (1 - capital factor) x (1 - LRMES) x equity with the LRMES a "
        "process of its own gives for that firm alone. Non-trivial: a fault fired or a panel was computed.")
MEASURE = "program shape with what became of each minimisation and the place each interrupt fired at"
REAL = ["frds.measures LRMES and SRISK, frds.algorithms._garch and _mgarch", "utils_ext, measures_ext compiled from /repo", "scipy.optimize SLSQP (in the scenarios where it is not replaced)"]
STUB = ["the optimiser, where it is replaced by a quick one or made to fail", "delivery of signals"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["equity values are positive", "a successful optimiser returns a legal point with its finite value"]
COUNT = {"quick": 3000, "thorough": 30000}


def prepare(bdir):
    est.prepare(bdir)
    jobs.load()


def generate(seed):
    rng = random.Random(f"C10/{seed}")
    real = rng.random() < 0.2
    nf = rng.choice([1, 2, 3, 4])
    sc = {"seed": seed, "T": rng.choice([24, 40] if real else [12, 24, 40, 60]), "dseed": rng.randrange(3 if real else 12), "real": real,
          "kinds": [rng.choice(["garch", "garch", "iid", "outlier"] if not real else ["garch", "iid"]) for _ in range(nf)],
          "layout": rng.choice(["C", "F", "strided", "float32"]), "h": rng.choice([2, 5]), "S": rng.choice([3, 12]), "C": rng.choice([-0.005, -0.001, -0.03]),
          "k": rng.choice([0.08, 0.055, 0.2]), "r": rng.choice([0, 42])}
    if real:
        sc.update(layout=rng.choice(["C", "F"]), h=4, S=10, C=-0.005, k=rng.choice([0.08, 0.2]), r=42)
    elif rng.random() < 0.05:
        sc.update(T=rng.choice([75, 130, 260]), h=rng.choice([5, 22, 65]), S=rng.choice([12, 130, 600]))
    if not real and rng.random() < 0.04:
        sc["kinds"] = [rng.choice(["garch", "iid"]) for _ in range(rng.choice([9, 12, 17]))]
        nf = len(sc["kinds"])
    if nf > 1 and not real and rng.random() < 0.1:
        sc["kinds"][-1] = "~"
    sc["W"] = [round(rng.choice([0.5, 3, 80]) * rng.uniform(0.5, 2), 3) for _ in range(nf)]
    sc["D"] = [round(rng.choice([0, 10, 40, 2000]) * rng.uniform(0.5, 2), 3) for _ in range(nf)]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        x = rng.random()
        if nf > 1 and x < 0.6:
            n = rng.randint(2, nf)
            op = {"op": "panel", "firms": rng.sample(range(nf), n) if rng.random() < 0.85 else [rng.randrange(nf) for _ in range(n)]}
        elif x < 0.8:
            op = {"op": "srisk", "firms": [rng.randrange(nf)]}
        else:
            op = {"op": "lrmes", "firms": [rng.randrange(nf)]}
        if op["op"] != "lrmes":
            op["agg"] = rng.random() < 0.5
            op["k"] = rng.choice([sc["k"], sc["k"], 0.1])
        y = rng.random()
        if y < 0.55:
            p = est.gen_plan(rng)
            while p["what"] == "stub":
                p = est.gen_plan(rng)
            op["plan"] = {"at": rng.randrange(3 * len(op["firms"])), "on": rng.random() < 0.3, **p}
        elif y < 0.8:
            op["fault"] = pysim.gen_fault(rng, after=(0, 0, 0, 1, 2, 3, 3))
        op["keep"] = rng.random() < 0.6
        ops.append(op)
        if rng.random() < 0.6:
            ops.append({**{k: v for k, v in op.items() if k not in ("plan", "fault")}, "keep": rng.random() < 0.8, "agg": rng.random() < 0.5})
    return {**sc, "ops": ops}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ execution
def data(sc):
    np = est.np
    c = est.returns(sc["T"], sc["dseed"] + 100, "garch")
    f = []
    for i, k in enumerate(sc["kinds"]):
        # "~": the returns of the first firm in another order
        f.append(est.shuffled(f[0]) if k == "~" else (est.returns(sc["T"], sc["dseed"] + 17 * i, k) + (0.4 + 0.2 * i) * c) / 100)
    if sc["layout"] == "float32":
        f = [x.astype(np.float32) for x in f]
    return f, c / 100


def panel(sc, fs):
    np = est.np
    if sc["layout"] == "F":
        return np.asfortranarray(np.stack(fs, axis=1))
    if sc["layout"] == "strided":
        b = np.full((len(fs[0]), 2 * len(fs)), 1e9)
        b[:, ::2] = np.stack(fs, axis=1)
        return b[:, ::2]
    return np.stack(fs, axis=1)


def quick(recd):
    return {"what": "stub", "seed": zlib.crc32(repr(recd["x0"]).encode()), "n": 2, "after": 1, "any": True}


def lrmes(sc, i):
    """What the firm's LRMES is in a process that computes nothing else."""
    def f():
        import warnings

        warnings.simplefilter("ignore")
        s = pysim.Sim({"mode": "none", "budget": 20_000_000})
        pysim.MIN_POLICY = None if sc["real"] else quick
        fs, m = data(sc)
        r = s.run([lambda: jobs.outcome(lambda: float(est.Me.LRMES(fs[i], m).estimate(sc["h"], sc["S"], sc["C"], sc["r"])))])
        return r[0][1] + [all(x.get("success") for x in pysim.MIN_LOG)]

    return est.reference(("C10", sc["real"], sc["T"], sc["dseed"], i, sc["kinds"][i], sc["kinds"][0] if sc["kinds"][i] == "~" else "", sc["layout"] == "float32", sc["h"], sc["S"], sc["C"], sc["r"]), f)


def expected(k, W, D, L):
    return k * D - (1 - k) * (1 - L) * W


def execute(sc):
    used = {f for op in sc["ops"] for f in op["firms"]}
    refs = {i: lrmes(sc, i) for i in sorted(used)}
    st, v = native.in_fork(lambda: run(sc, refs))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def desc(op):
    return {"lrmes": "LRMES of firm {}", "srisk": "SRISK of firm {}", "panel": "SRISK of the panel {}"}[op["op"]].format(op["firms"] if op["op"] == "panel" else op["firms"][0]) + (
        " (aggregate)" if op.get("agg") and op["op"] != "lrmes" else "")


def run(sc, refs):
    import warnings

    np = est.np
    warnings.simplefilter("ignore")
    sim = pysim.Sim({"mode": "none", "budget": 20_000_000})
    fs, mk = data(sc)
    W, D = np.array(sc["W"], dtype=float), np.array(sc["D"], dtype=float)
    viol, trace = [], []
    probes = {"numbers compared": 0, "calls with a failed minimisation": 0, "repeated calls": 0}

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": detail[:1200]})

    def body():
        objs, other = {}, set()
        for n, op in enumerate(sc["ops"]):
            fi = op["firms"]
            ok = (op["op"], tuple(fi))
            again = op["keep"] and ok in objs
            plan = op.get("plan")
            del pysim.MIN_LOG[:]
            cnt = [0]

            def policy(recd):
                cnt[0] += 1
                if plan and (cnt[0] - 1 == plan["at"] or (plan["on"] and cnt[0] - 1 > plan["at"])):
                    return {k: v for k, v in plan.items() if k not in ("at", "on")}
                return None if sc["real"] else quick(recd)

            def one():
                if not again:
                    if op["op"] == "lrmes":
                        objs[ok] = est.Me.LRMES(fs[fi[0]], mk)
                    elif op["op"] == "srisk":
                        objs[ok] = est.Me.SRISK(fs[fi[0]], mk, float(W[fi[0]]), float(D[fi[0]]))
                    else:
                        objs[ok] = est.Me.SRISK(panel(sc, [fs[i] for i in fi]), mk, W[fi].copy(), D[fi].copy())
                o = objs[ok]
                if op["op"] == "lrmes":
                    return o.estimate(sc["h"], sc["S"], sc["C"], sc["r"])
                return o.estimate(op["k"], sc["h"], sc["S"], sc["C"], sc["r"], op["agg"])

            if not again:
                objs.pop(ok, None)
            probes["repeated calls"] += again
            pysim.MIN_POLICY = policy
            me = sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
            kind, val = jobs.outcome(one)
            fired = me.fired
            sim.begin(-1)
            pysim.MIN_POLICY = None
            log = list(pysim.MIN_LOG)
            if not again:
                other.discard(ok)
            if not sc["real"] and any(r["plan"] not in ("stub", "fail", "raise") and r.get("success") for r in log):
                other.add(ok)  # the planned fault was not reached: another optimiser found another estimate
            failed = [j for j, r in enumerate(log) if not r.get("success")]
            trace.append([desc(op), "used" if again else "new", kind if kind == "ok" else val, failed[:1], fired[2] if fired else ""])
            who = f"call {n}, {desc(op)} on a {'used' if again else 'new'} object (T={sc['T']})"
            natural = [i for i in fi if refs[i][0] != "ok"]
            if failed:
                probes["calls with a failed minimisation"] += 1
                if kind == "ok":
                    how = "raised" if "success" not in log[failed[0]] else "failed"
                    bad("number from a failed estimation", f"{who} gives {val!r} although its minimisation {failed[0]} (of {len(log)}) {how}")
                continue
            if kind != "ok":
                if not fired and not natural:
                    bad("unexpected exception", f"{who}: every minimisation succeeded, it raises {val}")
                continue
            if natural:
                bad("number from a failed estimation", f"{who} gives {val!r}; alone, firm {natural[0]}'s LRMES raises {refs[natural[0]][1]}")
                continue
            if ok in other:
                if op["op"] != "lrmes":
                    other.discard(ok)
                continue
            probes["numbers compared"] += 1
            L = np.array([refs[i][1] for i in fi])
            if op["op"] == "lrmes":
                want = L[0]
            else:
                want = expected(op["k"], W[fi], D[fi], L)
                if op["agg"]:
                    want = float(np.sum(np.where(want > 0, want, 0.0)))
                elif op["op"] == "srisk":
                    want = want[0]
            tol = 1e-9 * (1 + float(np.max(W[fi]) + np.max(D[fi]))) if op["op"] != "lrmes" else 1e-10
            g = np.asarray(val, dtype=float)
            if op["op"] == "panel" and not op["agg"] and g.shape != (len(fi),) or g.size != np.size(want):
                bad("another value", f"{who}: {val!r} has not the shape it should have")
            elif not np.allclose(g.ravel(), np.ravel(want), rtol=1e-9, atol=tol, equal_nan=True):
                bad("another value", f"{who} gives {g.ravel().tolist()}, with each firm's own LRMES {L.tolist()} it is {np.ravel(want).tolist()}"
                    + (" (it was interrupted)" if fired else ""))

    r = sim.run([body])
    if sim.failed:
        viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
    elif r[0][0] == "raised":
        raise r[0][1]
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults), "probes": probes, "hashes": [repr(trace)],
                      "nontrivial": bool(len(set(sim.faults) - {"optimiser replaced"})) or any(op["op"] == "panel" for op in sc["ops"]),
                      "key": repr([trace, sc["T"], sc["dseed"], sc["kinds"], sc["real"]])},
            "summary": {"calls": trace, "interrupts": sim.log}}


def reductions(sc):
    ops = sc["ops"]
    for a in range(len(ops)):
        if len(ops) > 1:
            yield {**sc, "ops": ops[:a] + ops[a + 1:]}
    for a, op in enumerate(ops):
        for k in ("plan", "fault"):
            if op.get(k):
                yield {**sc, "ops": ops[:a] + [{x: y for x, y in op.items() if x != k}] + ops[a + 1:]}
        if op["keep"]:
            yield {**sc, "ops": ops[:a] + [{**op, "keep": False}] + ops[a + 1:]}
        if op["op"] == "panel" and len(op["firms"]) > 2:
            for j in range(len(op["firms"])):
                yield {**sc, "ops": ops[:a] + [{**op, "firms": op["firms"][:j] + op["firms"][j + 1:]}] + ops[a + 1:]}
    if sc["layout"] != "C":
        yield {**sc, "layout": "C"}
    if any(k != "garch" for k in sc["kinds"]):
        yield {**sc, "kinds": ["garch"] * len(sc["kinds"])}
