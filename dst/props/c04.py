"""C04: scoring neither blocks nor is disturbed by other Python threads."""
import random

from dst import forest, native

NATIVE = True
TIMEOUT = 60
HANG_IS_VIOLATION = True
prepare = forest.prepare
RULE = ("Seeded scenarios: 1-3 threads call the forest, one thread ticks, one overwrites the callers' tables while the trees grow and score; "
        "any interleaving. Results compared bit for bit with the same call alone; the share of native work done while the interpreter lock is held "
        "or its holder waits is bounded. Non-trivial: another Python thread ran during a native phase.")
MEASURE, REAL, STUB = forest.MEASURE, forest.REAL, forest.STUB
SIMTIME = "memory accesses and synchronisation steps of the extension; the code under test uses no clock"
ASSUMPTIONS = ["the interpreter lock changes hands only where the extension or a simulated caller releases it",
               "native work under the lock is measured in memory accesses: at most 12% of a call's work may hold it (at most 2% on the current tree), "
               "where growing and scoring each make up more than 25%"]
COUNT = {"quick": 2800, "thorough": 14000}
LIMIT = 0.12


def generate(seed):
    rng = random.Random(f"C04/{seed}")
    nt = rng.choice([1, 1, 2])
    tables = []
    for _ in range(nt):
        n = rng.choice([24, 28, 32])
        kinds = [rng.choice(["f8", "f8", "f8", "i8", "txt"]) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.5:
            kinds = ["f8"] * rng.randint(1, 3)
        t = forest.gen_table(rng, n=n, kinds=kinds)
        for c in t["cols"]:  # different values, so that trees are deep
            if c["kind"] == "f8" and len(set(map(repr, c["v"]))) < n // 2:
                c["v"] = [rng.gauss(0, 1) for _ in range(n)]
        if rng.random() < 0.5:
            t["layout"] = rng.choice(["block", "fortran"])
        tables.append(t)
    callers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            op = forest.gen_call(rng, nt, tree_one=False)
            op["forest"] = rng.choice([8, 10, 12, 16])
            op["tree"] = 16
            ops.append(op)
        callers.append(ops)
    if rng.random() < 0.06:  # a larger table
        kinds = ["f8"] * rng.randint(1, 3)
        tables = [forest.gen_table(rng, n=rng.choice([65, 129, 300, 600]), kinds=kinds)]
        for c in tables[0]["cols"]:
            c["v"] = [rng.gauss(0, 1) for _ in c["v"]]
        callers = [[{**callers[0][0], "t": 0, "forest": 8, "tree": rng.choice([16, 64])}]]
    sched = forest.gen_sched(rng)
    sched["mode"] = 1
    sched["mean"] = rng.choice([20, 50, 200, 1000])
    return {"seed": seed, "tables": tables, "callers": callers, "sched": sched, "ticks": rng.choice([0, 20, 200]),
            "mutate": rng.choice([0, 1, 1, 1]), "mseed": rng.getrandbits(30)}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


def execute(sc):
    tables, callers, sched = sc["tables"], sc["callers"], dict(sc["sched"])
    stats = {"runs": 0, "steps": 0, "hashes": [], "faults": {}, "probes": {}}
    refs, cache, total = [], {}, 0
    for ops in callers:
        row = []
        for op in ops:
            k = repr(sorted(op.items()))
            if k not in cache:
                cache[k] = forest.reference(tables, op)
                stats["runs"] += 1
            row.append(cache[k][0])
            total += cache[k][1]
        refs.append(row)
    dead = [r for row in refs for r in row if r[0] == "died"]
    if dead:
        return {"violations": [{"kind": "process ended", "detail": f"a single call: {dead[0][1]}"}], "stats": stats}
    sched["length"] = max(1, total)
    sched["budget"] = 60 * total + 2_000_000
    sched["record"] = 1 if sc.get("record") else 0
    nc = len(callers)

    def run():
        # every caller has its own copies: a table changes only once all calls that use it have begun
        L = native.lib()
        frames = [[forest.make(tables[op["t"]]) for op in ops] for ops in callers]
        before = [[forest.digest(d) for d, _ in row] for row in frames]
        began = [[False] * len(ops) for ops in callers]
        ended = [[False] * len(ops) for ops in callers]
        changed = [[False] * len(ops) for ops in callers]
        count = {"ticks": 0, "during": 0, "changes": 0}

        def inside():
            return any(b and not e for rb, re in zip(began, ended) for b, e in zip(rb, re))

        def caller(i, ops):
            def f():
                forest.npmem.install()
                out = []
                for j, op in enumerate(ops):
                    df = frames[i][j][0]
                    L.sim_yield()
                    began[i][j] = True
                    out.append(forest.call(df, op))
                    ended[i][j] = True
                return out
            return f

        def done():
            return all(e for row in ended for e in row)

        def ticker():
            forest.npmem.install()
            for _ in range(sc["ticks"]):
                if done():
                    break
                L.sim_yield()
                count["ticks"] += 1
                count["during"] += inside()

        def mutator():
            forest.npmem.install()
            rng = random.Random(sc["mseed"])
            for _ in range(400):
                L.sim_yield()
                if done():
                    break
                for i in range(nc):
                    for j in range(len(callers[i])):
                        if began[i][j] and not ended[i][j] and rng.random() < 0.5:
                            changed[i][j] = True
                            count["changes"] += 1
                            df, handles = frames[i][j]
                            for h in handles:
                                h[rng.randrange(h.shape[0]), :] = rng.choice([0.0, 1e9, float("nan")])
                            for cidx in range(df.shape[1]):
                                if df.dtypes.iloc[cidx] == "float64":
                                    df.iloc[rng.randrange(len(df)), cidx] = rng.choice([0.0, -5.0, 1e9])
                                elif df.dtypes.iloc[cidx] == object:
                                    df.iloc[rng.randrange(len(df)), cidx] = rng.choice(["zzz", "", "q"])

        fs = [caller(i, ops) for i, ops in enumerate(callers)]
        if sc["ticks"]:
            fs.append(ticker)
        if sc["mutate"]:
            fs.append(mutator)
        import warnings
        warnings.simplefilter("ignore")
        r, o = native.simulate(fs, sched, sc.get("script", ()))
        for x in r:
            if x[0] != "ok":
                raise x[1]
        same = all(changed[i][j] or forest.digest(frames[i][j][0]) == before[i][j] for i in range(nc) for j in range(len(callers[i])))
        return [x[1] for x in r[:nc]], o, same, count

    st, v = native.in_fork(run)
    stats["runs"] += 1
    if st != "ok":
        return {"violations": [{"kind": "process ended", "detail": f"{v['how']} {v['detail']}".strip()}], "stats": stats}
    got, o, same, count = v
    viol = []
    for i, ops in enumerate(callers):
        for j, op in enumerate(ops):
            d = forest.scores_differ(got[i][j], refs[i][j])
            if d and not viol:
                viol.append({"kind": "scores differ", "detail": f"caller {i}, call {j} ({op['forest']} trees of {op['tree']}), "
                             f"with {nc} callers{', tables changed meanwhile' if count['changes'] else ''}: {d}"})
    if not same and not viol:
        viol.append({"kind": "table changed", "detail": "a call changed its caller's table"})
    native_steps = max(1, o["steps"])
    share = o["gil_held_steps"] / native_steps
    blocked = o["blocked_holding_gil_steps"] / native_steps
    ok_calls = all(r[0] == "ok" for row in refs for r in row)
    # only growing and scoring count: few trees over few rows make the fixed part too big to tell
    if ok_calls and not viol and all(op["forest"] >= 8 and op["tree"] == 16 for ops in callers for op in ops) and \
            all(len(tables[op["t"]]["index"]) >= 24 for ops in callers for op in ops):
        if max(share, blocked) > LIMIT:
            viol.append({"kind": "interpreter lock held", "detail": f"{share:.0%} of the native work was done with the interpreter lock held "
                         f"({blocked:.0%} while its holder waited); other Python threads cannot run"})
    stats["steps"] += o["steps"]
    stats["hashes"] = [o["hash"]]
    stats["faults"] = {"table overwritten during a call": count["changes"], "spurious wake-ups": o["spurious"]}
    stats["probes"] = {"ticks during native phases": count["during"], "several callers": int(nc > 1), "share %d%%" % int(share * 20 * 5): 1}
    stats["nontrivial"] = count["during"] > 0 or count["changes"] > 0 or nc > 1
    stats["key"] = o["hash"]
    res = {"violations": viol, "stats": stats, "summary": {"share of work under the interpreter lock": round(share, 4), **count}}
    if "script" in o:
        res["script"] = o["script"]
    return res


def reductions(sc):
    if sc["ticks"]:
        yield {**sc, "ticks": 0}
    if sc["mutate"]:
        yield {**sc, "mutate": 0}
    yield from forest.reductions(sc)


pin = forest.pin
