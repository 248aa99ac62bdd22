"""C16: measures keep no hidden state and leave their inputs alone."""
import random

from dst import est, jobs, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded sequences of computations of every measure and estimator in one to three threads over shared inputs (of differing contents, lengths, layouts, number types, containers, "
        "with missing, infinite, tied and zero values), on new objects and on objects used before, also by other threads, some calls interrupted, raising, or wrongly made; callers overwrite "
        "the arrays they were given back and reuse their own buffers for other data. Values must be those of a process that computes nothing else, bit for bit; "
        "the content of all inputs is compared at executed lines, thread switches and the end of each call. Non-trivial: several computations.")
MEASURE = "schedules, by event number and thread of every switch, with the sequence of computations"
REAL = ["every measure and estimator of frds.measures, frds.algorithms' GARCH family, modified Merton computations", "utils_ext, measures_ext compiled from /repo", "numpy, scipy"]
STUB = ["thread switches (simulated)", "PIN's minimisations (an optimiser whose results follow from its starting values)", "delivery of signals"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["threads are switched between lines of frds, not inside numpy or scipy calls that do not call back", "one object is used by one thread at a time"]
COUNT = {"quick": 4000, "thorough": 24000}
SIMPLE = [j for j in jobs.JOBS if j not in jobs.ESTIMATORS or j == "DistressInsurancePremium"]


def prepare(bdir):
    est.prepare(bdir)
    jobs.load()


# ways to call a measure wrongly
WRONG = {
    "AbsorptionRatio": [lambda o, i: o.estimate(None), lambda o, i: o.estimate("x")],
    "MarginalExpectedShortfall": [lambda o, i: o.estimate(2.0), lambda o, i: o.estimate("x")],
    "SystemicExpectedShortfall": [lambda o, i: o.estimate("APPR2017"), lambda o, i: o.estimate("")],
    "DistressInsurancePremium": [lambda o, i: o.estimate(None), lambda o, i: o.estimate(0.1, 1, 3, "x"), lambda o, i: o.estimate(0.1, -5)],
    "ContingentClaimAnalysis": [lambda o, i: o.estimate(-1, 0, 0, 0, 0, 0), lambda o, i: o.estimate(1, "x", 0, 0, 0, 0)],
    "PIN EHO2010": [lambda o, i: o.estimate("none")],
    "PIN LK2011": [lambda o, i: o.estimate("none")],
    "LRMES": [lambda o, i: o.estimate(h="x", S=5), lambda o, i: o.estimate(4, 5, None), lambda o, i: o.estimate(4, 5, random_seed=-1)],
    "SRISK": [lambda o, i: o.estimate(k=None, lrmes_h=3, lrmes_S=4), lambda o, i: o.estimate(lrmes_h="x", lrmes_S=4)],
    "SRISK panel": [lambda o, i: o.estimate(k=None, lrmes_h=3, lrmes_S=4), lambda o, i: o.estimate(lrmes_h="x", lrmes_S=4)],
    "kyle_lambda": [lambda o, i: est.Me.kyle_lambda(i["f"], i["f"][:2])],
    "z_score": [lambda o, i: est.Me.z_score("x", 0.1, i["roas"])],
    "blsprice": [lambda o, i: est.Me.blsprice(1.0, -1.0, 0, 0, 0, 0), lambda o, i: est.Me.blsprice("x", 1.0, 0, 0, 0, 0)],
    "quoted_spread": [lambda o, i: jobs.L.spread.quoted_spread(i["bid"], i["ask"][:2])],
    "effective_spread": [lambda o, i: jobs.L.spread.effective_spread(i["price"], i["mid"][:2], i["vol"], None, True)],
    "realized_spread": [lambda o, i: jobs.L.spread.realized_spread(i["price"], i["later"], i["mid"][:2], i["vol"], None, True)],
    "simple_price_impact": [lambda o, i: jobs.L.price_impact.simple_price_impact(i["price"], i["later"], i["mid"], i["vol"][:2], None, True)],
    "DGGW_ask_slope": [lambda o, i: jobs.L.lob_slope.DGGW_ask_slope(i["as"], i["ap"][:2, 4], i["mid"])],
    "fftsmooth": [lambda o, i: jobs.L.ff.fftsmooth(i["x"], 0), lambda o, i: jobs.L.ff.fftsmooth(i["x"], "x")],
    "mod_merton_computation": [lambda o, i: jobs.L.mc.mod_merton_computation(i["fs"], i["param"], i["N"], i["n2"], i["w"][:3], 1),
                               lambda o, i: jobs.L.mc.mod_merton_computation(i["fs"], i["param"][:4], i["N"], i["n2"])],
    "mod_single_cohort_computation": [lambda o, i: jobs.L.sc.mod_single_cohort_computation(i["fs"], i["param"], i["N"], i["n2"], i["w1"][:3], 1)],
    "mod_single_cohort_solution": [lambda o, i: jobs.L.ss.mod_single_cohort_solution([i["fs"], "x"], i["param"], i["N"], i["n2"], 0.1, 0.3)],
}


def gen_op(rng, names, T, ins):
    op = jobs.gen(rng, names)
    op["T"] = T
    op["v"] = rng.randrange(4)
    if op["job"] not in ("LRMES", "SRISK", "SRISK panel", "DistressInsurancePremium", "mod_merton_computation", "mod_single_cohort_computation"):
        op["r"] = 0
    h = rng.choice(ins)
    if not h and op["job"] in jobs.SHORT and rng.random() < 0.15:
        h = jobs.LONG
    if h:
        op["in"] = h
    return op


def generate(seed):
    rng = random.Random(f"C16/{seed}")
    T = rng.choice([24, 40])
    x = rng.random()
    if x < 0.5:
        names = rng.sample(SIMPLE, rng.choice([1, 1, 2, 3]))
    elif x < 0.75:
        names = SIMPLE
    elif x < 0.9:
        names = rng.sample(list(jobs.JOBS), 2)
    else:
        names = None
    ins = ["", "", rng.choice(jobs.VARIANTS), rng.choice(jobs.VARIANTS)]
    nt = rng.choice([1, 1, 2, 2, 3])
    fault = rng.random() < 0.5
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([2, 4, 7]) if names is not None and x < 0.75 else rng.choice([2, 3])):
            if ops and rng.random() < 0.35:
                op = {k: v for k, v in rng.choice(ops).items() if k in ("job", "s", "T", "v", "r", "in")}
                c = rng.random()
                if c < 0.35:
                    op["v"] = rng.randrange(4)
                elif c < 0.65:
                    op["s"] = rng.randrange(3)
                elif c < 0.8:
                    # the other way: data that have something in common
                    if op.get("in") in ("shuffled", "standard") and rng.random() < 0.5:
                        op["s"] = (op["s"] + 1) % 3 if op["in"] == "standard" else op["s"]
                        if op["in"] == "shuffled":
                            del op["in"]
                    elif "in" not in op:
                        op["in"] = rng.choice(["shuffled", "shuffled", "standard", "negative"])
            else:
                op = gen_op(rng, names, T, ins)
            u = rng.random()
            op["keep"] = u < 0.5
            if u > 0.7:
                op["mine"] = True
            op["spoil"] = rng.random() < 0.4
            if rng.random() < 0.15 and op["job"] in WRONG:
                op["wrong"] = rng.randrange(len(WRONG[op["job"]]))
            elif fault and rng.random() < 0.35:
                op["fault"] = pysim.gen_fault(rng)
                op["fault"].update(m=rng.choice([2, 3, 6, 20]), occ=1, near=rng.random() < 0.7)
            ops.append(op)
            if (op.get("fault") or "wrong" in op) and rng.random() < 0.7:
                # and then again on the same object
                op["keep"] = True
                op.pop("mine", None)
                again = {k: v for k, v in op.items() if k not in ("fault", "wrong")}
                ops.append({**again, "v": rng.choice([op["v"], rng.randrange(4)])})
        threads.append({"ops": ops})
    sched = {**pysim.gen_sched(rng, nt)}
    if x < 0.75 and rng.random() < 0.7:
        sched["gap"] = rng.choice([2, 4, 8, 20])
    return {"seed": seed, "threads": threads, "sched": sched}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


def desc(a):
    return f"{a['job']} (data {a['s']}{', ' + a['in'] if a.get('in') else ''}, variant {a['v']}, seed {a['r']})"


def execute(sc):
    refs = [[jobs.reference(op) for op in t["ops"]] for t in sc["threads"]]
    st, v = native.in_fork(lambda: run(sc, refs))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def arrays(r, np):
    if isinstance(r, np.ndarray):
        yield r
    elif isinstance(r, (tuple, list)):
        for x in r:
            yield from arrays(x, np)


def run(sc, refs):
    import os
    import sys
    import warnings

    np = est.np
    sys.stderr = open(os.devnull, "w")
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sim = pysim.Sim({**sc["sched"], "budget": 20_000_000})
    viol, log = [], []
    shared = {}  # inputs that all threads use
    pool = {}  # objects nobody uses at the moment
    busy = {}  # thread -> [op, inputs, digest, events seen]
    probes = {"inputs compared": 0, "values compared": 0, "used objects": 0, "results overwritten": 0, "buffers reused": 0, "wrong calls": 0}

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": detail[:900]})

    def check(b, when):
        probes["inputs compared"] += 1
        if jobs.digest_inputs(b[1]) != b[2]:
            f = jobs.inputs(b[0])
            k = [k for k in f if jobs.digest_inputs({k: f[k]}) != jobs.digest_inputs({k: b[1][k]})]
            bad("input changed", f"the input {', '.join(k) or '(its layout)'} of {desc(b[0])} is changed {when}" + (f"; running: {', '.join(desc(x[0]) for x in busy.values())}" if len(busy) > 1 else ""))

    def watch(me):
        b = busy.get(me.tid)
        if b is None or viol:
            return
        b[3] += 1
        if b[3] <= 150 or (sim.events * 2654435761 >> 7) % 32 == 0:
            check(b, "while it runs")

    sim.on_event = watch

    def body(k):
        ops = sc["threads"][k]["ops"]
        buffers = {}

        def own(op):
            """The caller's own buffer, filled with the data of this call."""
            f = jobs.inputs(op)
            bk = (jobs.JOBS[op["job"]][0], op.get("in"))
            b = buffers.setdefault(bk, {})
            for n, v in f.items():
                o = b.get(n)
                if isinstance(v, np.ndarray) and isinstance(o, np.ndarray) and o.shape == v.shape and o.dtype == v.dtype and o.flags.writeable:
                    o[...] = v
                    probes["buffers reused"] += 1
                else:
                    b[n] = v
            return b

        def go():
            for n, op in enumerate(ops):
                ik = (jobs.JOBS[op["job"]][0], op["s"], op["T"], op.get("in"))
                if op.get("mine"):
                    i = own(op)
                else:
                    if ik not in shared:
                        shared[ik] = jobs.inputs(op)
                    i = shared[ik]
                ok = (op["job"], op["s"], op["T"], op.get("in"), op["v"] % 2 if op["job"] in ("GARCHModel", "GJRGARCHModel") else 0)
                o = pool[ok].pop() if op["keep"] and not op.get("mine") and pool.get(ok) else None
                used = o is not None
                cell = [o]
                b = [op, i, jobs.digest_inputs(i), 0]
                me = sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
                busy[me.tid] = b

                def one():
                    if cell[0] is None:
                        cell[0] = jobs.new(op, i)
                    if op.get("wrong") is not None:
                        try:
                            WRONG[op["job"]][op["wrong"]](cell[0], i)
                        except Exception:  # noqa
                            pass
                    r = jobs.raw(op, cell[0], i)
                    return r, jobs.enc(r)

                r = jobs.outcome(one)
                fired = me.fired is not None
                busy.pop(me.tid)
                sim.begin(-1)
                check(b, "after it " + ("was interrupted" if fired else "returned" if r[0] == "ok" else "raised"))
                probes["used objects"] += used
                probes["wrong calls"] += op.get("wrong") is not None
                log.append([k, op["job"], op["s"], op.get("in", ""), op["v"], "used" if used else "new", "interrupted" if fired else r[0]])
                got = ["ok", r[1][1]] if r[0] == "ok" else r
                if not fired:
                    probes["values compared"] += 1
                    if got != refs[k][n]:
                        bad("another value", f"thread {k}, call {n}: {desc(op)} on a {'used' if used else 'new'} object gives {str(got)[:300]}, alone {str(refs[k][n])[:300]}")
                if r[0] == "ok" and op["spoil"] and (jobs.JOBS[op["job"]][1] is None or not op["keep"]):
                    mine = [v for v in i.values() if isinstance(v, np.ndarray)]
                    for x in arrays(r[1][0], np):
                        if x.flags.writeable and x.dtype == float and not any(np.may_share_memory(x, m) for m in mine):
                            x[...] = 7e77
                            probes["results overwritten"] += 1
                if op["keep"] and not op.get("mine") and cell[0] is not None:
                    pool.setdefault(ok, []).append(cell[0])

        return go

    pysim.MIN_POLICY = jobs.policy(lambda t: busy[t][0] if t in busy else None)
    r = sim.run([body(k) for k in range(len(sc["threads"]))])
    pysim.MIN_POLICY = None
    if sim.failed:
        viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
    else:
        for x in r:
            if x[0] == "raised":
                raise x[1]
        for (f, s, T, h), i in shared.items():
            if not viol and jobs.digest_inputs(i) != jobs.digest_inputs(jobs.vary(f({"s": s, "T": T}), h)):
                bad("input changed", f"shared inputs (data {s}, {h}) are not as before when all calls are over")
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults), "probes": {**probes, "thread switches": len(sim.switches)},
                      "hashes": [format(sim.h, "x") + repr(log)], "nontrivial": len(log) > 1, "key": repr(sim.h) + repr(log)},
            "summary": {"calls": log, "interrupts": sim.log, "switches": len(sim.switches)},
            "script": sim.switches if sc.get("record") else None}


def pin(sc, r):
    if not r.get("script"):
        return None
    return {**sc, "script": r["script"], "sched": {"mode": "gap", "script": r["script"], "seed": 0}}


def reductions(sc):
    th = sc["threads"]
    for k in range(len(th)):
        if len(th) > 1:
            yield {**sc, "threads": th[:k] + th[k + 1:]}

    def put(k, n, ops):
        return {**sc, "threads": th[:k] + [{"ops": th[k]["ops"][:n] + ops + th[k]["ops"][n + 1:]}] + th[k + 1:]}

    for k, t in enumerate(th):
        for n in range(len(t["ops"])):
            if len(t["ops"]) > 1:
                yield put(k, n, [])
    for k, t in enumerate(th):
        for n, op in enumerate(t["ops"]):
            for d in ("fault", "wrong", "mine", "in"):
                if op.get(d) is not None:
                    yield put(k, n, [{x: y for x, y in op.items() if x != d}])
            for d in ("keep", "spoil"):
                if op[d]:
                    yield put(k, n, [{**op, d: False}])
    if sc["sched"].get("mode") == "rare":
        yield {**sc, "sched": {**sc["sched"], "mode": "gap", "gap": 30}}
