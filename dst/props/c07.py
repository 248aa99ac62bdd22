"""C07: estimations in concurrent threads are independent and restore process settings."""
import random

from dst import est, jobs, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded sequences of estimations and measures in two to four threads, each on its own objects, under a seeded schedule that switches threads at any executed "
        "line of frds or of the warnings module and at locks, some with interrupts (also while waiting for a lock) or failing minimisations, in a process with "
        "settings of its own. Results of the undisturbed ones must be those of a process that computes nothing else, bit for bit; warning filters, "
        "floating-point handling (of every thread) and global random states must be as before. Non-trivial: threads were switched inside an estimation.")
MEASURE = "schedules, by event number and thread of every switch"
REAL = ["frds.algorithms, frds.measures", "utils_ext, measures_ext compiled from /repo", "scipy.optimize", "CPython's warnings module, threads", "numpy"]
STUB = ["locks and thread switches (simulated)", "PIN's minimisations (an optimiser whose results follow from its starting values)", "delivery of signals"]
SIMTIME = "lines executed in frds and warnings; no clock"
ASSUMPTIONS = ["threads are switched between lines of frds, not inside numpy or scipy calls that do not call back"]
COUNT = {"quick": 2000, "thorough": 16000}


def prepare(bdir):
    est.prepare(bdir)
    jobs.load()


FILTERS = [["once", "UserWarning"], ["ignore", "RuntimeWarning"], ["always", "RuntimeWarning"], ["default", "DeprecationWarning"], ["error", "BytesWarning"],
           ["module", "FutureWarning"], ["ignore", "Warning"]]


def gen_settings(rng):
    return {"filters": rng.sample(FILTERS, rng.randrange(4)), "fp": [rng.choice(["warn", "ignore"]) for _ in range(4)], "seed": rng.getrandbits(20),
            "show": rng.random() < 0.3}


def generate(seed):
    rng = random.Random(f"C07/{seed}")
    nt = rng.choice([2, 2, 2, 3, 4])
    fault = rng.random() < 0.5
    same = rng.random() < 0.5 and jobs.gen(rng, jobs.ESTIMATORS)
    threads = []
    if rng.random() < 0.35:
        # short computations, densely interleaved
        few = rng.sample(jobs.SHORT, rng.choice([1, 1, 2, 4]))
        for _ in range(nt):
            ops = [jobs.gen(rng, few) for _ in range(rng.choice([2, 4, 6]))]
            for op in ops:
                if fault and rng.random() < 0.2:
                    op["fault"] = pysim.gen_fault(rng, after=(0, 0, 0, 1, 3))
                    op["fault"].update(m=rng.choice([2, 6]), occ=1)
            threads.append({"ops": ops, "fp": ["warn"] * 4})
        return {"seed": seed, "settings": gen_settings(rng), "threads": threads, "sched": {**pysim.gen_sched(rng, nt), "gap": rng.choice([2, 4, 8, 20])}}
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = jobs.gen(rng, jobs.ESTIMATORS if rng.random() < 0.7 else None)
            if same and rng.random() < 0.4:
                op = dict(same)
            if fault and rng.random() < 0.45:
                if rng.random() < 0.75:
                    op["fault"] = pysim.gen_fault(rng, after=(0, 0, 0, 1, 3))
                    if rng.random() < 0.3:
                        op["fault"]["lock"] = True
                elif op["job"] in jobs.ESTIMATORS:
                    op["plan"] = est.gen_plan(rng)
                    op["at"] = rng.randrange(4)
            ops.append(op)
        threads.append({"ops": ops, "fp": [rng.choice(["warn", "ignore"]) for _ in range(4)]})
    return {"seed": seed, "settings": gen_settings(rng), "threads": threads, "sched": pysim.gen_sched(rng, nt)}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


def desc(a):
    return f"{a['job']} (data {a['s']}, variant {a['v']}, seed {a['r']})"


def execute(sc):
    refs = [[jobs.reference(op) for op in t["ops"]] for t in sc["threads"]]
    st, v = native.in_fork(lambda: run(sc, refs))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def seterr(fp):
    est.np.seterr(divide=fp[0], over=fp[1], under=fp[2], invalid=fp[3])


def apply(s):
    import warnings

    for act, cat in s["filters"]:
        warnings.filterwarnings(act, category=getattr(__builtins__, cat, None) or {"Warning": Warning}.get(cat) or __import__("builtins").__dict__[cat])
    if s["show"]:
        warnings.showwarning = lambda *a, **k: None
    seterr(s["fp"])
    est.np.random.seed(s["seed"])
    random.seed(s["seed"])


def run(sc, refs):
    import os
    import sys

    np = est.np
    sys.stderr = open(os.devnull, "w")
    sim = pysim.Sim({**sc["sched"], "budget": 20_000_000})
    apply(sc["settings"])
    before = pysim.settings()
    viol = []
    ctx = {}
    cache = {}

    def current(tid):
        return ctx.get(tid, (None,))[0]

    stub = jobs.policy(current)

    def policy(recd):
        c = ctx.get(recd["tid"])
        if c is None:
            return None
        c[1] += 1
        if c[0].get("plan") and c[1] - 1 == c[0]["at"]:
            c[2] = True
            return c[0]["plan"]
        return stub(recd)

    pysim.MIN_POLICY = policy

    def body(k):
        t = sc["threads"][k]

        def go():
            seterr(t["fp"])
            mine = np.geterr()
            for n, op in enumerate(t["ops"]):
                ik = (jobs.JOBS[op["job"]][0], op["s"], op["T"], op.get("in"))
                if ik not in cache:
                    cache[ik] = jobs.inputs(op)
                i = cache[ik]
                me = sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
                ctx[me.tid] = c = [op, 0, False]
                r = jobs.outcome(lambda: jobs.call(op, jobs.new(op, i), i))
                fired = me.fired is not None or c[2]
                sim.begin(-1)
                ctx.pop(me.tid)
                if not fired and r != refs[k][n] and not viol:
                    viol.append({"kind": "not as alone", "detail": f"thread {k}: {desc(op)} gives {str(r)[:300]}, alone {str(refs[k][n])[:300]}"})
                if np.geterr() != mine and not viol:
                    viol.append({"kind": "settings changed", "detail": f"thread {k}: after {desc(op)} the thread's floating-point error handling is {np.geterr()}, was {mine}"})

        return go

    r = sim.run([body(k) for k in range(len(sc["threads"]))])
    pysim.MIN_POLICY = None
    if sim.failed:
        viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
    else:
        for x in r:
            if x[0] == "raised":
                raise x[1]
        after = pysim.settings()
        d = pysim.changed(before, after)
        if d and not viol:
            viol.append({"kind": "settings changed", "detail": f"{', '.join(d)} not as before: {short(after[d[0]])} instead of {short(before[d[0]])}"})
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults), "probes": {"thread switches": len(sim.switches), "results compared": sum(len(t["ops"]) for t in sc["threads"])},
                      "hashes": [format(sim.h, "x")], "nontrivial": len(sim.switches) > 2 * len(sc["threads"]), "key": repr(sim.h)},
            "summary": {"interrupts": sim.log, "switches": len(sim.switches)},
            "script": sim.switches if sc.get("record") else None}


def short(v):
    return str(v)[:300]


def pin(sc, r):
    if not r.get("script"):
        return None
    return {**sc, "script": r["script"], "sched": {"mode": "gap", "script": r["script"], "seed": 0}}


def reductions(sc):
    th = sc["threads"]
    for k in range(len(th)):
        if len(th) > 1:
            yield {**sc, "threads": th[:k] + th[k + 1:]}
    for k, t in enumerate(th):
        for n in range(len(t["ops"])):
            if len(t["ops"]) > 1:
                yield {**sc, "threads": th[:k] + [{**t, "ops": t["ops"][:n] + t["ops"][n + 1:]}] + th[k + 1:]}
    for k, t in enumerate(th):
        for n, op in enumerate(t["ops"]):
            for d in ("fault", "plan"):
                if op.get(d):
                    yield {**sc, "threads": th[:k] + [{**t, "ops": t["ops"][:n] + [{x: y for x, y in op.items() if x != d}] + t["ops"][n + 1:]}] + th[k + 1:]}
    s = sc["settings"]
    for n in range(len(s["filters"])):
        yield {**sc, "settings": {**s, "filters": s["filters"][:n] + s["filters"][n + 1:]}}
    if sc["sched"].get("mode") == "rare":
        yield {**sc, "sched": {**sc["sched"], "mode": "gap", "gap": 30}}
