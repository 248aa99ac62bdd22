"""C05: a GARCH or GJR-GARCH estimate is all or nothing, and stays."""
import random

from dst import est, native, pysim

NATIVE = False
TIMEOUT = 60
HANG_IS_VIOLATION = True
RULE = ("Seeded programs of fits, saves and restores (pickle, deepcopy, copy) over one to three univariate models, with interrupts at any point where "
        "CPython delivers signals in frds or scipy.optimize, and faults of each minimisation (failing, raising, raising out of the objective, hitting its "
        "limit, or replaced by any optimiser that returns a legal point). Consistency of a reported success is checked at every executed line; "
        "an undisturbed estimation must equal a fresh model in another process bit for bit. Non-trivial: a fault or an interrupt fired.")
MEASURE = "program shape with the place each interrupt fired at and what became of each minimisation"
REAL = ["frds.algorithms._garch", "utils_ext compiled from /repo", "scipy.optimize SLSQP (except where replaced)", "CPython, numpy, pickle, copy"]
STUB = ["the optimiser, in the minimisations where it is replaced or made to fail", "delivery of signals"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["interrupts arrive where CPython delivers signals: at function starts, backward jumps and after calls", "a successful optimiser returns a legal point with its finite value"]
COUNT = {"quick": 5000, "thorough": 40000}


def prepare(bdir):
    est.prepare(bdir, measures=False)


# ------------------------------------------------------------------ generation
KINDS = ["garch", "garch", "garch", "iid", "outlier", "trend", "alternating"]


def gen_obj(rng):
    return {"model": rng.choice(["GARCHModel", "GJRGARCHModel"]), "zero": rng.random() < 0.35, "T": rng.choice([20, 40, 60, 90, 150]) if rng.random() < 0.96 else rng.choice([74, 75, 76, 260, 520, 1030]),
            "dseed": rng.randrange(12), "kind": rng.choice(KINDS), "scale": rng.choice([1.0, 1.0, 1.0, 0.2, 20.0]),
            "layout": rng.choice(["plain", "plain", "plain", "list", "strided", "column", "reversed", "readonly"])}


def generate(seed):
    rng = random.Random(f"C05/{seed}")
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    if len(objs) > 1 and rng.random() < 0.2:
        # two objects whose returns have much in common
        objs[1].update({k: objs[0][k] for k in ("model", "T", "dseed", "scale", "zero")}, kind=objs[0]["kind"] + "~")
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        i = rng.randrange(len(objs))
        x = rng.random()
        if x < 0.72:
            op = {"op": "fit", "obj": i}
            y = rng.random()
            if y < 0.4:
                op["plan"] = est.gen_plan(rng)
            elif y < 0.75:
                op["fault"] = pysim.gen_fault(rng, after=(0, 0, 1))
                if rng.random() < 0.3:
                    op["plan"] = {"what": "stub", "seed": rng.getrandbits(30), "n": 3, "after": 1, "any": True}
            ops.append(op)
        else:
            ops.append({"op": rng.choice(["pickle", "pickle", "deepcopy", "copy"]), "obj": i})
    for i in range(len(objs)):
        ops += [{"op": "fit", "obj": i}, {"op": "fit", "obj": i}]
    return {"seed": seed, "objs": objs, "ops": ops}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ execution
def make(o):
    x = est.returns(o["T"], o["dseed"], o["kind"], o["scale"])
    return x, getattr(est.A, o["model"])(est.layout(x, o["layout"]), o["zero"])


def fresh(o):
    def f():
        x, m = make({**o, "layout": "plain"})
        m.fit()
        return [bool(m.estimation_success), est.snapshot(m) if m.estimation_success else None]

    return est.reference(("C05", o["model"], o["zero"], o["T"], o["dseed"], o["kind"], o["scale"]), f)


def execute(sc):
    refs = [fresh(o) for o in sc["objs"]]
    st, v = native.in_fork(lambda: run(sc, refs))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def name(o):
    return f"{o['model']}({'zero mean, ' if o['zero'] else ''}{o['kind']}, T={o['T']})"


def run(sc, refs):
    import copy
    import pickle

    sim = pysim.Sim({"mode": "none", "budget": 2_000_000})
    objs = sc["objs"]
    data, models = [], []
    for o in objs:
        x, m = make(o)
        data.append(x)
        models.append(m)
    done = [None] * len(objs)  # the estimate, once reported
    viol, trace = [], []

    def bad(kind, i, detail):
        viol.append({"kind": kind, "detail": f"{name(objs[i])}: {detail}"[:1500]})

    def where():
        return f" (interrupted at {sim.log[-1][2]})" if sim.log and sim.log[-1][0] == sim.recs[0].op else ""

    current = [None]

    def watch(me):
        i = current[0]
        if i is None or viol or done[i] is not None:
            return
        m = models[i]
        if m.estimation_success:
            w = est.check_univariate(m, data[i], objs[i]["zero"])
            if w:
                bad("success without an estimate", i, f"while estimating, success is reported but {w}")
            else:
                done[i] = est.snapshot(m)

    sim.on_event = watch

    def check(i, n):
        m = models[i]
        if m.estimation_success:
            w = est.check_univariate(m, data[i], objs[i]["zero"])
            if w:
                bad("success without an estimate", i, f"operation {n}: {w}{where()}")
            s = est.snapshot(m)
            if done[i] is not None and s != done[i]:
                bad("estimate changed", i, f"operation {n}: {est.differing(s, done[i])}{where()}")
            done[i] = s
        elif done[i] is not None:
            bad("estimate lost", i, f"operation {n}: the model reported success and no longer does{where()}")

    def body():
        for n, op in enumerate(sc["ops"]):
            i = op["obj"]
            m, o = models[i], objs[i]
            if op["op"] != "fit":
                models[i] = {"pickle": lambda: pickle.loads(pickle.dumps(m)), "deepcopy": lambda: copy.deepcopy(m), "copy": lambda: copy.copy(m)}[op["op"]]()
                check(i, n)
                trace.append(op["op"])
                if viol:
                    return
                continue
            had = done[i] is not None
            del pysim.MIN_LOG[:]
            plan = op.get("plan")
            left = [plan]
            pysim.MIN_POLICY = lambda recd: left.pop() if left else None
            raised = None
            res = None
            sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
            current[0] = i
            try:
                res = m.fit()
            except pysim.Deadlock:
                raise
            except BaseException as e:  # noqa
                raised = e
            current[0] = None
            pysim.MIN_POLICY = None
            sim.begin(-1)
            fired = bool(sim.log) and sim.log[-1][0] == n
            log = pysim.MIN_LOG
            trace.append(("kept" if had else "+".join(r["plan"] for r in log) or "-") + (":" + type(raised).__name__ if raised else "") + (sim.log[-1][2] if fired else ""))
            check(i, n)
            if viol:
                return
            ok = bool(m.estimation_success)
            disturbed = fired or (log and log[-1]["plan"] != "real")
            if had:
                if log:
                    bad("estimated again", i, f"operation {n}: the model is estimated and fitting again minimises again")
                elif not fired and (raised is not None or res is None or est.hexes(est.params(m, res)) != done[i]["parameters"]):
                    bad("another estimate", i, f"operation {n}: fitting again {'raises ' + repr(raised) if raised else 'returns ' + repr(res)} instead of the estimate")
            elif not disturbed:
                rs, rv = refs[i]
                if raised is not None:
                    bad("unexpected exception", i, f"operation {n}: an undisturbed estimation raises {type(raised).__name__}: {raised}")
                elif ok != rs:
                    bad("not as a fresh model", i, f"operation {n}: success {ok}, a fresh model {rs}")
                elif ok and est.differing(est.snapshot(m), rv):
                    bad("not as a fresh model", i, f"operation {n}: {est.differing(est.snapshot(m), rv)}")
            elif log and not log[-1].get("success") and ok:
                bad("success after a failure", i, f"operation {n}: success although the minimisation {('raised' if 'success' not in log[-1] else 'failed')}")
            if ok and not raised and not viol and est.hexes(est.params(m, res)) != est.snapshot(m)["parameters"]:
                bad("another estimate", i, f"operation {n}: fit returns {res!r}, the model holds {m.parameters!r}")
            if viol:
                return

    r = sim.run([body])
    if sim.failed:
        viol.append({"kind": sim.failed[0], "detail": sim.failed[1]})
    elif r[0][0] == "raised":
        raise r[0][1]
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults), "probes": {"reported successes checked": sum(d is not None for d in done)},
                      "hashes": [repr(trace)], "nontrivial": bool(sim.faults), "key": repr(trace) + repr([sorted(o.items()) for o in objs])},
            "summary": {"trace": trace, "interrupts": sim.log}}


def reductions(sc):
    ops, objs = sc["ops"], sc["objs"]
    for k in (4, 2, 1):
        for a in range(0, len(ops), k):
            if len(ops) > k:
                yield {**sc, "ops": ops[:a] + ops[a + k:]}
    for i in range(len(objs)):
        if len(objs) > 1 and all(op["obj"] != i for op in ops):
            yield {**sc, "objs": objs[:i] + objs[i + 1:], "ops": [{**op, "obj": op["obj"] - (op["obj"] > i)} for op in ops]}
    for n, op in enumerate(ops):
        for k in ("plan", "fault"):
            if op.get(k):
                yield {**sc, "ops": ops[:n] + [{x: y for x, y in op.items() if x != k}] + ops[n + 1:]}
        f = op.get("fault")
        if f and f["exc"] != "KeyboardInterrupt":
            yield {**sc, "ops": ops[:n] + [{**op, "fault": {**f, "exc": "KeyboardInterrupt"}}] + ops[n + 1:]}
    for i, o in enumerate(objs):
        for k, v in (("layout", "plain"), ("zero", False), ("scale", 1.0), ("kind", "garch"), ("T", 20), ("T", 40), ("dseed", 0)):
            if o[k] != v and not (k == "T" and o[k] < v):
                yield {**sc, "objs": objs[:i] + [{**o, k: v}] + objs[i + 1:]}
