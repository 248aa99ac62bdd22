"""C06: a multivariate GARCH estimate is all or nothing and leaves shared models right."""
import random

from dst import est, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded programs of fits, correlation queries, saves and restores over two or three univariate models and one to three CCC, DCC or GJR-DCC models that "
        "share them, in any order, with interrupts at any point where CPython delivers signals and faults of each minimisation, univariate or multivariate. "
        "Consistency of a reported success and constancy of estimated univariate models are checked as the run goes; an undisturbed estimation must "
        "equal a fresh model in another process bit for bit. Non-trivial: a fault or an interrupt fired, or a univariate model was shared.")
MEASURE = "program shape with the place each interrupt fired at and what became of each minimisation"
REAL = ["frds.algorithms._mgarch and _garch", "utils_ext compiled from /repo", "scipy.optimize SLSQP (except where replaced)", "CPython, numpy, pickle, copy"]
STUB = ["the optimiser, in the minimisations where it is replaced or made to fail", "delivery of signals"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["interrupts arrive where CPython delivers signals: at function starts, backward jumps and after calls", "a successful optimiser returns a legal point with its finite value"]
COUNT = {"quick": 2200, "thorough": 16000}


def prepare(bdir):
    est.prepare(bdir, measures=False)


# ------------------------------------------------------------------ generation
def generate(seed):
    rng = random.Random(f"C06/{seed}")
    T = rng.choice([20, 30, 50, 80]) if rng.random() < 0.96 else rng.choice([75, 76, 150, 260, 520])
    fam = rng.choice(["GARCHModel", "GJRGARCHModel"])
    dseed = rng.randrange(8)
    nu = rng.choice([2, 2, 3])
    kinds = [rng.choice(["garch", "garch", "iid", "outlier"]) for _ in range(nu)]
    if rng.random() < 0.12:
        kinds[-1] = "~"
    multis = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        cls = rng.choice(["GARCHModel_CCC", "GARCHModel_DCC", "GARCHModel_DCC"]) if fam == "GARCHModel" else "GJRGARCHModel_DCC"
        a, b = rng.sample(range(nu), 2)
        multis.append({"model": cls, "a": a, "b": b, "share": rng.choice(["both", "both", "first", "second", "none"]) if "DCC" in cls else "none", "late": rng.random() < 0.5})
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        x = rng.random()
        i = rng.randrange(len(multis))
        if x < 0.55:
            op = {"op": "fit", "m": i}
        elif x < 0.72:
            op = {"op": "ufit", "u": rng.randrange(nu)}
        elif x < 0.82:
            op = {"op": "corr", "m": i, "a": rng.choice([0.02, 0.1]), "b": rng.choice([0.5, 0.9]), "ask": rng.choice(["correlations", "correlations", "likelihood"])}
        else:
            ops.append({"op": rng.choice(["pickle", "deepcopy", "copy"]), "m": i})
            continue
        y = rng.random()
        if y < 0.4:
            op["plan"] = {"at": rng.choice([0, 1, 2, 2, 2]) if op["op"] == "fit" else 0, **est.gen_plan(rng)}
        elif y < 0.7:
            op["fault"] = pysim.gen_fault(rng, after=(0, 0, 0, 1, 2, 3, 3))
        ops.append(op)
    order = list(range(len(multis)))
    rng.shuffle(order)
    for i in order:
        ops.append({"op": "fit", "m": i})
        if rng.random() < 0.5:
            ops.append({"op": "fit", "m": i})
    return {"seed": seed, "T": T, "fam": fam, "dseed": dseed, "kinds": kinds, "multis": multis, "ops": ops}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ execution
def data(sc):
    c = est.returns(sc["T"], sc["dseed"] + 100, "garch")
    x = []
    for i, k in enumerate(sc["kinds"]):
        # "~": the returns of the first one in another order
        x.append(est.shuffled(x[0]) if k == "~" else est.returns(sc["T"], sc["dseed"] + 17 * i, k) + (0.4 + 0.2 * i) * c)
    return x


def fresh_m(sc, mu):
    def f():
        xs = data(sc)
        m = getattr(est.A, mu["model"])(xs[mu["a"]], xs[mu["b"]])
        m.fit()
        return [bool(m.estimation_success), est.snapshot(m) if m.estimation_success else None]

    return est.reference(("C06", mu["model"], sc["T"], sc["dseed"], tuple(sc["kinds"]), mu["a"], mu["b"]), f)


def fresh_u(sc, u):
    def f():
        m = getattr(est.A, sc["fam"])(data(sc)[u])
        m.fit()
        return [bool(m.estimation_success), est.snapshot(m) if m.estimation_success else None]

    return est.reference(("C06u", sc["fam"], sc["T"], sc["dseed"], tuple(sc["kinds"]), u), f)


def execute(sc):
    mref = [fresh_m(sc, mu) for mu in sc["multis"]]
    uref = [fresh_u(sc, u) for u in range(len(sc["kinds"]))]
    st, v = native.in_fork(lambda: run(sc, mref, uref))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def run(sc, mref, uref):
    import copy
    import pickle

    sim = pysim.Sim({"mode": "none", "budget": 4_000_000})
    xs = data(sc)
    unis = [getattr(est.A, sc["fam"])(x) for x in xs]
    multis = []  # made when first used: models may be shared before or after they are estimated

    def create(i):
        mu = sc["multis"][i]
        s = mu["share"]
        multis[i] = getattr(est.A, mu["model"])(unis[mu["a"]] if s in ("both", "first") else xs[mu["a"]], unis[mu["b"]] if s in ("both", "second") else xs[mu["b"]])
        register(multis[i], i, f"{mu['model']} {i}")

    for mu in sc["multis"]:
        multis.append(None)
    udata = {}  # every univariate model seen: id -> (model, data index, what it is)
    udone = {}  # id -> estimate
    mdone = [None] * len(multis)
    stubbed = set()  # univariate models whose estimate is another optimiser's
    viol, trace = [], []

    def register(m, i, label):
        for u, x, w in ((m.model1, sc["multis"][i]["a"], "model1"), (m.model2, sc["multis"][i]["b"], "model2")):
            udata.setdefault(id(u), (u, x, f"{label}.{w}"))

    for k, u in enumerate(unis):
        udata[id(u)] = (u, k, f"shared model {k}")
    for i, mu in enumerate(sc["multis"]):
        if not mu.get("late"):
            create(i)

    def bad(kind, who, detail):
        viol.append({"kind": kind, "detail": f"{who} (T={sc['T']}): {detail}"[:1500]})

    def where():
        return f" (interrupted at {sim.log[-1][2]})" if sim.log and sim.log[-1][0] == opno[0] else ""

    opno = [0]

    def check_u(full=True):
        for k, (u, x, label) in udata.items():
            if viol:
                return
            if u.estimation_success:
                if k in udone and not full:
                    continue
                s = est.snapshot(u)
                if k in udone:
                    d = est.differing(s, udone[k])
                    if d:
                        bad("estimated univariate model changed", label, d + where())
                else:
                    w = est.check_univariate(u, xs[x], False)
                    if w:
                        bad("success without an estimate", label, w + where())
                udone[k] = s
            elif k in udone:
                bad("estimate lost", label, "it reported success and no longer does" + where())

    def check_m(i):
        m, mu = multis[i], sc["multis"][i]
        if m is None:
            return
        label = f"{mu['model']} {i}"
        if m.estimation_success:
            if mdone[i] is None:
                w = est.check_multivariate(m, xs[mu["a"]], xs[mu["b"]])
                if w:
                    bad("success without an estimate", label, w + where())
                    return
            s = est.snapshot(m)
            if mdone[i] is not None and est.differing(s, mdone[i]):
                bad("estimate changed", label, est.differing(s, mdone[i]) + where())
            mdone[i] = s
        elif mdone[i] is not None:
            bad("estimate lost", label, "it reported success and no longer does" + where())

    quiet = [False]

    def watch(me):
        if quiet[0] or viol:
            return
        quiet[0] = True
        f = me.fault
        me.fault = None
        try:
            check_u(sim.events % 512 == 0)
            for i, m in enumerate(multis):
                if m is not None and m.estimation_success and mdone[i] is None and not viol:
                    check_m(i)
        finally:
            me.fault = f
            quiet[0] = False

    sim.on_event = watch

    def all_checks():
        f = quiet[0]
        quiet[0] = True
        check_u()
        for i in range(len(multis)):
            if not viol:
                check_m(i)
        quiet[0] = f

    def body():
        for n, op in enumerate(sc["ops"]):
            opno[0] = n
            if "m" in op and multis[op["m"]] is None:
                create(op["m"])
                all_checks()
                if viol:
                    return
            if op["op"] in ("pickle", "deepcopy", "copy"):
                i = op["m"]
                m = multis[i]
                multis[i] = {"pickle": lambda: pickle.loads(pickle.dumps(m)), "deepcopy": lambda: copy.deepcopy(m), "copy": lambda: copy.copy(m)}[op["op"]]()
                for u, v in ((m.model1, multis[i].model1), (m.model2, multis[i].model2)):
                    if id(u) in stubbed:
                        stubbed.add(id(v))
                register(multis[i], i, f"{sc['multis'][i]['model']} {i} ({op['op']})")
                all_checks()
                trace.append(op["op"])
                if viol:
                    return
                continue
            del pysim.MIN_LOG[:]
            plan = op.get("plan")
            cnt = [0]

            def policy(recd):
                cnt[0] += 1
                return plan if plan and cnt[0] - 1 == plan["at"] else None

            had_u = {k for k, (u, _, _) in udata.items() if u.estimation_success}
            pysim.MIN_POLICY = policy
            raised = res = None
            sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
            tgt = multis[op["m"]] if "m" in op else unis[op["u"]]
            had = bool(tgt.estimation_success)
            try:
                if op["op"] == "corr":
                    if op.get("ask") == "likelihood":
                        # of a and b, before or after the univariate models are estimated: leaves no trace
                        if hasattr(tgt, "conditional_correlations") and hasattr(tgt, "loglikelihood_model"):
                            tgt.loglikelihood_model([op["a"], op["b"]])
                    elif hasattr(tgt, "conditional_correlations"):
                        res = tgt.conditional_correlations(op["a"], op["b"])
                else:
                    res = tgt.fit()
            except pysim.Deadlock:
                raise
            except BaseException as e:  # noqa
                raised = e
            pysim.MIN_POLICY = None
            sim.begin(-1)
            fired = bool(sim.log) and sim.log[-1][0] == n
            log = pysim.MIN_LOG
            hit = [r for r in log if r["plan"] != "real"]
            if hit and hit[0]["plan"] == "stub":
                stubbed.update(k for k, (u, _, _) in udata.items() if u.estimation_success and k not in had_u)
            trace.append(op["op"] + ("kept" if had else "+".join(r["plan"] for r in log)) + (":" + type(raised).__name__ if raised else "") + (sim.log[-1][2] if fired else ""))
            all_checks()
            if viol:
                return
            who = f"{sc['multis'][op['m']]['model']} {op['m']}" if "m" in op else f"shared model {op['u']}"
            if op["op"] == "corr":
                m = tgt
                if raised is None and res is not None and m.model1.estimation_success and m.model2.estimation_success:
                    z1, z2 = (est.np.asarray(u.resids) / est.np.sqrt(u.sigma2) for u in (m.model1, m.model2))
                    if not est.close(res, est.rho_dcc(op["a"], op["b"], z1, z2), rtol=1e-6):
                        bad("wrong correlations", who, f"operation {n}: conditional_correlations({op['a']}, {op['b']}) are not those of the univariate estimates")
                        return
                continue
            ok = bool(tgt.estimation_success)
            if had:
                if log:
                    bad("estimated again", who, f"operation {n}: it is estimated and fitting again minimises again")
                elif not fired and (raised is not None or res is None or est.hexes(est.params(tgt, res)) != est.snapshot(tgt)["parameters"]):
                    bad("another estimate", who, f"operation {n}: fitting again {'raises ' + repr(raised) if raised else 'returns ' + repr(res)} instead of the estimate")
            elif not fired and not hit:
                us = [tgt.model1, tgt.model2] if "m" in op else [tgt]
                if not any(id(u) in stubbed for u in us):
                    rs, rv = mref[op["m"]] if "m" in op else uref[op["u"]]
                    if raised is not None:
                        bad("unexpected exception", who, f"operation {n}: an undisturbed estimation raises {type(raised).__name__}: {raised}")
                    elif ok != rs:
                        bad("not as a fresh model", who, f"operation {n}: success {ok}, a fresh model {rs}")
                    elif ok and est.differing(est.snapshot(tgt), rv):
                        bad("not as a fresh model", who, f"operation {n}: {est.differing(est.snapshot(tgt), rv)}")
                elif raised is not None:
                    bad("unexpected exception", who, f"operation {n}: an undisturbed estimation raises {type(raised).__name__}: {raised}")
            elif ok and hit and not hit[-1].get("success"):
                bad("success after a failure", who, f"operation {n}: success although minimisation {log.index(hit[-1])} {'raised' if 'success' not in hit[-1] else 'failed'}")
            if ok and not raised and not viol and est.hexes(est.params(tgt, res)) != est.snapshot(tgt)["parameters"]:
                bad("another estimate", who, f"operation {n}: fit returns {res!r}, the model holds {tgt.parameters!r}")
            if viol:
                return

    r = sim.run([body])
    if sim.failed:
        viol.append({"kind": sim.failed[0], "detail": sim.failed[1]})
    elif r[0][0] == "raised":
        raise r[0][1]
    shared = sum(mu["share"] != "none" for mu in sc["multis"])
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults),
                      "probes": {"multivariate successes checked": sum(d is not None for d in mdone), "univariate successes checked": len(udone),
                                 "models with shared univariate models": shared},
                      "hashes": [repr(trace)], "nontrivial": bool(sim.faults) or shared > 0, "key": repr([trace, sc["T"], sc["dseed"], sc["kinds"], sc["multis"]])},
            "summary": {"trace": trace, "interrupts": sim.log}}


def reductions(sc):
    ops, ms = sc["ops"], sc["multis"]
    for k in (4, 2, 1):
        for a in range(0, len(ops), k):
            if len(ops) > k:
                yield {**sc, "ops": ops[:a] + ops[a + k:]}
    for i in range(len(ms)):
        if len(ms) > 1 and all(op.get("m") != i for op in ops):
            yield {**sc, "multis": ms[:i] + ms[i + 1:], "ops": [{**op, "m": op["m"] - (op["m"] > i)} if "m" in op else op for op in ops]}
    for n, op in enumerate(ops):
        for k in ("plan", "fault"):
            if op.get(k):
                yield {**sc, "ops": ops[:n] + [{x: y for x, y in op.items() if x != k}] + ops[n + 1:]}
    for i, mu in enumerate(ms):
        if mu.get("late"):
            yield {**sc, "multis": ms[:i] + [{**mu, "late": False}] + ms[i + 1:]}
        if mu["share"] != "none":
            yield {**sc, "multis": ms[:i] + [{**mu, "share": "none"}] + ms[i + 1:]}
    for T in (20, 30):
        if T < sc["T"]:
            yield {**sc, "T": T}
    if sc["dseed"]:
        yield {**sc, "dseed": 0}
    if any(k != "garch" for k in sc["kinds"]):
        yield {**sc, "kinds": ["garch"] * len(sc["kinds"])}
