"""C01: anomaly scores do not depend on threads, timing or history."""
import random

from dst import forest, native

NATIVE = True
TIMEOUT = 60
HANG_IS_VIOLATION = True
prepare = forest.prepare
RULE = ("Seeded scenarios: 1-3 tables, 1-3 concurrent caller threads with 1-3 calls each, processor count 0-33, schedule (random switches at "
        "memory accesses, extra switches at conflicting accesses, or PCT), heap content, clock; every result compared bit for bit with the "
        "same call alone in a fresh process on one processor. Non-trivial: at least 3 threads alive at once and more switches than threads, or a second call in the process.")
MEASURE, REAL, STUB = forest.MEASURE, forest.REAL, forest.STUB
SIMTIME = "memory accesses and synchronisation steps of the extension; the code under test uses no clock"
ASSUMPTIONS = ["sequentially consistent memory (x86-64 reorderings within one data race are not modelled)",
               "code inside libstdc++.so and libc is atomic between instrumented accesses"]
COUNT = {"quick": 3500, "thorough": 24000}


def generate(seed):
    rng = random.Random(f"C01/{seed}")
    nt = rng.choice([1, 1, 2, 3])
    tables = [forest.gen_table(rng) for _ in range(nt)]
    callers = [[forest.gen_call(rng, nt) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if rng.random() < 0.3:  # the same call everywhere
        callers = [[dict(callers[0][0]) for _ in c] for c in callers]
    ncols = [len(t["cols"]) for t in tables]
    for c in callers:
        for op in c:
            if rng.random() < 0.2 and ncols[op["t"]] > 1:
                op["exclude"] = [f"c{rng.randrange(ncols[op['t']])}"]
    sched = forest.gen_sched(rng)
    if rng.random() < 0.08:
        t, op = forest.gen_big(rng, sched)
        tables, callers = [t, tables[0]], [[op, dict(op)]] + ([[dict(op)]] if rng.random() < 0.3 else [])
    return {"seed": seed, "tables": tables, "callers": callers, "sched": sched}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


def execute(sc):
    tables, callers, sched = sc["tables"], sc["callers"], dict(sc["sched"])
    refs, cache, total = [], {}, 0
    viol = []
    for ops in callers:
        row = []
        for op in ops:
            k = repr(sorted(op.items()))
            if k not in cache:
                cache[k] = forest.reference(tables, op)
            row.append(cache[k][0])
            total += cache[k][1]
        refs.append(row)
    stats = {"runs": len(cache) + 1, "steps": total, "hashes": [], "faults": {}, "probes": {}}
    if any(r[0] == "died" for row in refs for r in row):
        bad = [r for row in refs for r in row if r[0] == "died"][0]
        return {"violations": [{"kind": "process ended", "detail": f"a single call on one processor: {bad[1]}"}], "stats": stats}
    sched["length"] = max(1, total)
    sched["budget"] = 60 * total + 2_000_000
    sched["record"] = 1 if sc.get("record") else 0

    def run():
        dfs = [forest.make(t)[0] for t in tables]

        def caller(ops):
            def f():
                forest.npmem.install()
                return [forest.call(dfs[op["t"]], op) for op in ops]
            return f

        r, o = native.simulate([caller(ops) for ops in callers], sched, sc.get("script", ()))
        for x in r:
            if x[0] != "ok":
                raise x[1]
        return [x[1] for x in r], o

    st, v = native.in_fork(run)
    if st != "ok":
        viol.append({"kind": "process ended", "detail": f"{v['how']} {v['detail']}".strip()})
        return {"violations": viol, "stats": stats}
    got, o = v
    for i, ops in enumerate(callers):
        for j, op in enumerate(ops):
            d = forest.scores_differ(got[i][j], refs[i][j])
            if d and not viol:
                viol.append({"kind": "scores differ", "detail": f"caller {i}, call {j} ({op['forest']} trees of {op['tree']}, "
                             f"{len(tables[op['t']]['index'])} rows, {sched['ncpu']} processors): {d}"})
    stats["steps"] += o["steps"]
    stats["sim_ns"] = o["clock"]
    stats["hashes"] = [o["hash"]]
    stats["probes"] = {"conflicting accesses": o["conflicts"], "switches": o["switches"], "several callers": int(len(callers) > 1),
                       "earlier call in the process": int(any(len(c) > 1 for c in callers)), "unknown processor count": int(sched["ncpu"] == 0),
                       "call raises": sum(r[0] == "raised" for row in refs for r in row)}
    stats["faults"] = {"junk-filled fresh memory": int(sched.get("heap_fill", -1) != -1), "spurious wake-ups": o["spurious"]}
    stats["nontrivial"] = (o["max_threads"] >= 3 and o["switches"] > o["max_threads"]) or any(len(c) > 1 for c in callers)
    stats["key"] = o["hash"]
    res = {"violations": viol, "stats": stats, "summary": {"steps": o["steps"], "switches": o["switches"], "threads": o["max_threads"]}}
    if "script" in o:
        res["script"] = o["script"]
    return res


reductions, pin = forest.reductions, forest.pin
