"""C08: Monte Carlo measures follow from their inputs and seed alone."""
import random

from dst import est, jobs, native, pysim

NATIVE = False
TIMEOUT = 90
HANG_IS_VIOLATION = True
RULE = ("Seeded sequences of Monte Carlo estimates (new and used objects, varying parameters and seeds, some interrupted) in one to three threads, while other threads and "
        "the same thread reseed and draw from numpy's and Python's global generators, under a seeded schedule. Values must be those of a process that "
        "computes nothing else, bit for bit; the global states must be those of a copy that only the noise advances, at sampled lines and at the end. "
        "Non-trivial: noise was drawn or threads were switched during an estimate, or objects used again.")
MEASURE = "schedules, by event number and thread of every switch, with the sequence of estimates"
REAL = ["LRMES, SRISK, DistressInsurancePremium, modified Merton computations and lookups", "utils_ext, measures_ext compiled from /repo", "numpy's generators", "Python's random"]
STUB = ["thread switches (simulated)", "delivery of signals"]
SIMTIME = "lines executed in frds; no clock"
ASSUMPTIONS = ["threads are switched between lines of frds, not inside numpy or scipy calls that do not call back"]
COUNT = {"quick": 1100, "thorough": 18000}

NAMES = ["LRMES", "LRMES", "SRISK", "SRISK panel", "DistressInsurancePremium", "DistressInsurancePremium", "mod_merton_computation", "mod_merton_computation",
         "mod_single_cohort_computation", "mod_single_cohort_computation", "mod_single_cohort_solution", "mod_merton_create_lookup", "mod_single_merton_create_lookup"]
SEEDED = ["LRMES", "SRISK", "SRISK panel", "DistressInsurancePremium", "mod_merton_computation", "mod_single_cohort_computation"]
SEEDS = [0, 1, 2, 42, 123456, 2**32 - 1]


def prepare(bdir):
    est.prepare(bdir)
    jobs.load()


def gen_noise(rng, n):
    out = []
    for _ in range(n):
        out.append(rng.choice([["np.seed", rng.choice([0, 1, 42, rng.getrandbits(20)])], ["np.normal", rng.choice([1, 3, 700])], ["np.rand", 2], ["np.choice", 5],
                               ["py.seed", rng.getrandbits(20)], ["py.random", 2], ["py.gauss", 1]]))
    return out


def gen_op(rng, names):
    op = jobs.gen(rng, names)
    op["r"] = rng.choice(SEEDS)
    return op


def other_seeds(rng, job):
    """Seeds that a careless reduction would make equal: neighbours, other high bits, same last digits."""
    bits = 63 if "LRMES" in job or "SRISK" in job else 31  # the others take 32 bits
    r = rng.choice([0, 1, 7, 42, 1000, 123456, 2**31 - 1, rng.getrandbits(20), rng.getrandbits(31)])
    out = [r, r + 1, r ^ 1 << rng.randrange(bits), r ^ 1 << rng.choice([8, 10, 15, 16, 24, 30, bits]), r + rng.choice([10, 100, 1000, 10**6, 521, 10**9 + 7]), rng.getrandbits(bits)]
    if bits > 31 and rng.random() < 0.5:
        out[3] = r + (1 << 32)
    return [x if bits > 31 or x < 2**32 else x - 2**31 for x in dict.fromkeys(out)]


def coincide(ops, refs):
    """Two different seeds that give the same value, also for four other inputs: they draw the same numbers."""
    for i, a in enumerate(ops):
        for j in range(i):
            b = ops[j]
            if a["r"] == b["r"] or refs[i][0] != "ok" or refs[i] != refs[j]:
                continue
            for s, v in [(0, 2), (1, 0), (2, 2), (1, 2)]:
                x, y = (jobs.reference({**o, "s": s, "T": [40, 24, 30][s], "v": v}) for o in (a, b))
                if x[0] != "ok" or x != y:
                    break
            else:
                return [b["r"], a["r"]]
    return None


def generate(seed):
    rng = random.Random(f"C08/{seed}")
    names = rng.sample(NAMES, rng.choice([1, 2, 3])) if rng.random() < 0.7 else NAMES
    if rng.random() < 0.12:
        j = rng.choice(SEEDED)
        op = jobs.gen(rng, [j])
        op["v"] = rng.choice([0, 2])
        return {"seed": seed, "threads": [{"ops": [{**op, "r": r, "keep": rng.random() < 0.7} for r in other_seeds(rng, j)]}], "noise": gen_noise(rng, 3), "differ": True,
                "sched": {"mode": "none"}, "state": rng.getrandbits(20)}
    nt = rng.choice([1, 1, 2, 2, 3])
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4]) if nt > 1 else rng.choice([2, 3, 5])):
            x = rng.random()
            if ops and x < 0.3:
                op = dict(rng.choice(ops))
                op.pop("fault", None)
                op.pop("noise", None)
                if rng.random() < 0.6:
                    op.update(v=rng.randrange(4), r=rng.choice(SEEDS))
            else:
                op = gen_op(rng, names)
            op["keep"] = rng.random() < 0.6
            if rng.random() < 0.15:
                op["fault"] = pysim.gen_fault(rng)
            if rng.random() < 0.4:
                op["noise"] = gen_noise(rng, 2)
            ops.append(op)
        threads.append({"ops": ops})
    noise = gen_noise(rng, rng.choice([4, 12, 30])) if rng.random() < 0.8 else []
    return {"seed": seed, "threads": threads, "noise": noise, "sched": pysim.gen_sched(rng, nt + bool(noise)), "state": rng.getrandbits(20)}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


def execute(sc):
    refs = [[jobs.reference(op) for op in t["ops"]] for t in sc["threads"]]
    same_seeds = coincide(sc["threads"][0]["ops"], refs[0]) if sc.get("differ") else None
    st, v = native.in_fork(lambda: run(sc, refs, same_seeds))
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": v["how"] + " " + str(v.get("detail", ""))[:300]}], "stats": {"runs": 1}}
    return v


def desc(a):
    return f"{a['job']} (data {a['s']}, variant {a['v']}, seed {a['r']})"


def run(sc, refs, same_seeds):
    import warnings

    np = est.np
    warnings.simplefilter("ignore")
    sim = pysim.Sim({**sc["sched"], "budget": 20_000_000})
    np.random.seed(sc["state"])
    random.seed(sc["state"])
    sh_np = np.random.RandomState(sc["state"])
    sh_py = random.Random(sc["state"])
    viol, log = [], []
    cache = {}
    drawn = [0]

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": detail})

    def same():
        a, b = np.random.get_state(), sh_np.get_state()
        if a[2:] != b[2:] or a[0] != b[0] or not np.array_equal(a[1], b[1]):
            return "numpy's global generator"
        if random.getstate() != sh_py.getstate():
            return "Python's global generator"
        return None

    def draw(n, where):
        """One draw, from the global generator and from the copy."""
        w = same()
        if w:
            bad("global generator used", f"{w} was seeded or advanced {where}")
        k, v = n
        g, c = (np.random, sh_np) if k.startswith("np") else (random, sh_py)
        drawn[0] += 1
        if k.endswith("seed"):
            g.seed(v)
            c.seed(v)
        elif k == "np.normal":
            g.normal(size=v), c.normal(size=v)
        elif k == "np.rand":
            g.rand(v), c.rand(v)
        elif k == "np.choice":
            g.choice(v), c.choice(v)
        elif k == "py.random":
            g.random(), c.random()
        else:
            g.gauss(0, 1), c.gauss(0, 1)

    busy = {}

    def watch(me):
        if viol or (sim.events * 2654435761 >> 7) % 64 or me.tid not in busy:
            return
        w = same()
        if w:
            bad("global generator used", f"{w} was seeded or advanced while {', '.join(desc(o) for o in busy.values())} ran")

    sim.on_event = watch

    def body(k):
        ops = sc["threads"][k]["ops"]

        def go():
            objs = {}
            for n, op in enumerate(ops):
                ik = (jobs.JOBS[op["job"]][0], op["s"], op["T"], op.get("in"))
                if ik not in cache:
                    cache[ik] = jobs.inputs(op)
                i = cache[ik]
                for d in op.get("noise") or ():
                    draw(d, "before " + desc(op))
                ok = (op["job"], op["s"], op["T"], op.get("in"))
                me = sim.begin(n, dict(op["fault"]) if op.get("fault") else None)
                busy[me.tid] = op
                used = op["keep"] and ok in objs

                def one():
                    if not used:
                        objs[ok] = None
                        objs[ok] = jobs.new(op, i)
                    return jobs.call(op, objs[ok], i)

                r = jobs.outcome(one)
                fired = me.fired is not None
                if fired and objs.get(ok) is None and jobs.JOBS[op["job"]][1]:
                    objs.pop(ok, None)
                sim.begin(-1)
                busy.pop(me.tid)
                log.append([k, op["job"], op["r"], "used" if used else "new", "interrupted" if fired else ""])
                w = same()
                if w:
                    bad("global generator used", f"{w} was seeded or advanced by {desc(op)} or what ran meanwhile")
                if not fired and r != refs[k][n]:
                    bad("another value", f"thread {k}, estimate {n}: {desc(op)} on a {'used' if used else 'new'} object gives {str(r)[:300]}, alone {str(refs[k][n])[:300]}")

        return go

    def noise():
        me = sim.me()
        for d in sc["noise"]:
            for _ in range(3):
                sim.event(me, ("noise", d[0]))
            draw(d, "while " + (", ".join(desc(o) for o in busy.values()) or "nothing") + " ran")

    r = sim.run([body(k) for k in range(len(sc["threads"]))] + ([noise] if sc["noise"] else []))
    if sim.failed:
        viol.insert(0, {"kind": sim.failed[0], "detail": sim.failed[1]})
    else:
        for x in r:
            if x[0] == "raised":
                raise x[1]
        w = same()
        if w:
            bad("global generator used", f"{w} was seeded or advanced")
        if same_seeds:
            bad("seed ignored", f"{sc['threads'][0]['ops'][0]['job']} draws the same for the seeds {same_seeds[0]} and {same_seeds[1]}")
    return {"violations": viol[:1],
            "stats": {"runs": 1, "steps": sim.events, "faults": dict(sim.faults), "probes": {"global draws": drawn[0], "thread switches": len(sim.switches), "values compared": len(log)},
                      "hashes": [format(sim.h, "x") + repr(log)], "nontrivial": bool(drawn[0] or len(sim.switches) > 2 or any(x[3] == "used" for x in log)), "key": repr(sim.h) + repr(log)},
            "summary": {"estimates": log, "interrupts": sim.log, "switches": len(sim.switches)},
            "script": sim.switches if sc.get("record") else None}


def pin(sc, r):
    if not r.get("script"):
        return None
    return {**sc, "script": r["script"], "sched": {"mode": "gap", "script": r["script"], "seed": 0}}


def reductions(sc):
    th = sc["threads"]
    for k in range(len(th)):
        if len(th) > 1:
            yield {**sc, "threads": th[:k] + th[k + 1:]}
    for k, t in enumerate(th):
        for n in range(len(t["ops"])):
            if len(t["ops"]) > 1:
                yield {**sc, "threads": th[:k] + [{"ops": t["ops"][:n] + t["ops"][n + 1:]}] + th[k + 1:]}
    for k, t in enumerate(th):
        for n, op in enumerate(t["ops"]):
            for d in ("fault", "noise"):
                if op.get(d):
                    yield {**sc, "threads": th[:k] + [{"ops": t["ops"][:n] + [{x: y for x, y in op.items() if x != d}] + t["ops"][n + 1:]}] + th[k + 1:]}
            if op["keep"]:
                yield {**sc, "threads": th[:k] + [{"ops": t["ops"][:n] + [{**op, "keep": False}] + t["ops"][n + 1:]}] + th[k + 1:]}
    for k in (8, 4, 2, 1):
        for a in range(0, len(sc["noise"]), k):
            yield {**sc, "noise": sc["noise"][:a] + sc["noise"][a + k:]}
