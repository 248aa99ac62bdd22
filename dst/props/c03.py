"""C03: the forest survives running out of memory or threads."""
import random

from dst import forest, native

NATIVE = True
TIMEOUT = 60
HANG_IS_VIOLATION = True
prepare = forest.prepare
RULE = ("Seeded scenarios: 1-2 concurrent calls, several fault plans each (the k-th allocation or thread start refused, all from the k-th on, or "
        "each with some probability, with k spread over everything the call makes), each plan on its own interleaving, then the same calls again "
        "without faults in the same process. Non-trivial: at least one fault fired while a call was running.")
MEASURE, REAL, STUB = forest.MEASURE, forest.REAL, forest.STUB
SIMTIME = "memory accesses and synchronisation steps of the extension; the code under test uses no clock"
ASSUMPTIONS = ["refusals are std::bad_alloc from operator new, a null pointer from malloc and numpy's allocator, EAGAIN from thread creation; "
               "the C++ runtime's own exception objects are never refused"]
COUNT = {"quick": 700, "thorough": 8000}
HUGE = 1 << 60


def gen_plan(rng):
    k = rng.choice(["alloc", "alloc", "alloc", "thread", "thread", "both"])
    p = {"sched": {**forest.gen_sched(rng)}}
    p["sched"]["ncpu"] = rng.choice([0, 1, 2, 2, 3, 4, 5, 8, 33])

    def where():
        style = rng.choice(["one", "one", "from", "pm", "few"])
        if style == "pm":
            return {"pm": rng.choice([1, 10, 100, 500, 1000])}
        return {"at": rng.choice([round(rng.random(), 4), 0.0, round(rng.random() * 0.1, 4), 0.999]), "n": {"one": 1, "from": HUGE, "few": rng.randint(2, 6)}[style]}

    if k in ("alloc", "both"):
        p["alloc"] = where()
    if k in ("thread", "both"):
        p["thread"] = where()
    return p


def generate(seed):
    rng = random.Random(f"C03/{seed}")
    nt = rng.choice([1, 1, 2])
    tables = [forest.gen_table(rng, n=rng.choice([1, 2, 5, 9, 16, 20])) for _ in range(nt)]
    callers = []
    for i in range(rng.choice([1, 1, 1, 2])):
        op = forest.gen_call(rng, nt)
        op["forest"] = min(op["forest"], 12)
        callers.append([op])
    plans = [gen_plan(rng) for _ in range(10)]
    if rng.random() < 0.06:
        t, op = forest.gen_big(rng, plans[0]["sched"], rows=(65, 129, 300, 1025))
        tables, callers, plans = [t], [[op]], plans[:4]
        for p in plans[1:]:
            p["sched"].update(mean=1000, conflict_pm=0, ncpu=rng.choice([plans[0]["sched"]["ncpu"], 4, 16, 65]))
    return {"seed": seed, "tables": tables, "callers": callers, "plans": plans}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


def execute(sc):
    tables, callers = sc["tables"], sc["callers"]
    refs, cache = [], {}
    stats = {"runs": 0, "steps": 0, "hashes": [], "faults": {}, "probes": {}}
    viol = []
    for ops in callers:
        row = []
        for op in ops:
            k = repr(sorted(op.items()))
            if k not in cache:
                cache[k] = forest.reference(tables, op)
                stats["runs"] += 1
            row.append(cache[k][0])
        refs.append(row)
    dead = [r for row in refs for r in row if r[0] == "died"]
    if dead:
        return {"violations": [{"kind": "process ended", "detail": f"a call without faults: {dead[0][1]}"}], "stats": stats}

    def run(sched, script=()):
        """One plan: the calls with faults, then again without."""
        def f():
            dfs = [forest.make(t)[0] for t in tables]
            before = [forest.digest(d) for d in dfs]
            L = native.lib()

            def caller(ops, check):
                def g():
                    forest.npmem.install()
                    out = []
                    for op in ops:
                        r = forest.call(dfs[op["t"]], op)
                        out.append([r, int(L.sim_live_workers())])
                    return out
                return g

            r1, o1 = native.simulate([caller(ops, True) for ops in callers], sched, script)
            for x in r1:
                if x[0] != "ok":
                    raise x[1]
            got = [x[1] for x in r1]
            if any(w for row in got for _, w in row):
                return got, o1, None, None, True
            same = [forest.digest(d) == b for d, b in zip(dfs, before)]
            clean = {**sched, "alloc_from": -1, "alloc_to": -1, "alloc_pm": 0, "thr_from": -1, "thr_to": -1, "thr_pm": 0, "record": 0, "mode": 0}
            r2, o2 = native.simulate([caller(ops, False) for ops in callers], clean)
            for x in r2:
                if x[0] != "ok":
                    raise x[1]
            return got, o1, [x[1] for x in r2], o2, all(same)
        return native.in_fork(f)

    fired = 0
    for pi, plan in enumerate(sc["plans"]):
        sched = dict(plan["sched"])
        if "alloc_from" not in sched:
            st, v = run({**sched, "mode": 0})
            if st != "ok":
                viol.append({"kind": "process ended", "detail": f"without faults: {v['how']} {v['detail']}".strip()})
                break
            base = v[1]
            stats["runs"] += 1
            sched["length"] = max(1, base["steps"])
            sched["budget"] = 20 * base["steps"] + 1_000_000
            a, t = plan.get("alloc"), plan.get("thread")
            for w, key, total in ((a, "alloc", base["allocs"]), (t, "thr", base["thread_starts"])):
                if w is None:
                    continue
                if "pm" in w:
                    sched[key + "_pm"] = w["pm"]
                else:
                    sched[key + "_from"] = int(w["at"] * total)
                    sched[key + "_to"] = min(HUGE, sched[key + "_from"] + w["n"])
        if sc.get("record"):
            sched["record"] = 1
        st, v = run(sched, plan.get("script", ()))
        stats["runs"] += 2
        where = f"plan {pi} ({describe(sched)}, {sched['ncpu']} processors)"
        if st != "ok":
            viol.append({"kind": "process ended", "detail": f"{where}: {v['how']} {v['detail']}".strip(), "plan": pi, "sched": sched})
            break
        got, o1, again, o2, same = v
        stats["steps"] += o1["steps"] + (o2["steps"] if o2 else 0)
        stats["hashes"].append(o1["hash"])
        for k, n in (("memory refused", o1["alloc_failed"]), ("thread refused", o1["thread_failed"])):
            stats["faults"][k] = stats["faults"].get(k, 0) + n
        fired += o1["alloc_failed"] + o1["thread_failed"]
        stats["probes"]["calls that raised"] = stats["probes"].get("calls that raised", 0) + sum(r[0][0] == "raised" for row in got for r in row)
        stats["probes"]["faults survived with right scores"] = stats["probes"].get("faults survived with right scores", 0) + (
            (o1["alloc_failed"] + o1["thread_failed"] > 0) and all(r[0][0] == "ok" for row in got for r in row))
        bad = None
        for i, ops in enumerate(callers):
            for j, op in enumerate(ops):
                r, left = got[i][j]
                if left:
                    bad = ("worker left running", f"{where}: {left} worker threads run on after the call {('raised ' + r[1]) if r[0] == 'raised' else 'returned'}")
                elif r[0] == "ok":
                    d = forest.scores_differ(r, refs[i][j])
                    if d:
                        bad = ("wrong scores under faults", f"{where}: {d}")
                elif o1["alloc_failed"] + o1["thread_failed"] == 0 and refs[i][j][0] == "ok":
                    bad = ("raises without a fault", f"{where}: {r[1]}")
                if not bad and again is not None:
                    d = forest.scores_differ(again[i][j][0], refs[i][j])
                    if d:
                        bad = ("wrong scores after faults", f"{where}: the next call: {d}")
        if not bad and not same:
            bad = ("table changed", where)
        if bad:
            viol.append({"kind": bad[0], "detail": bad[1]})
            res = {"violations": viol, "stats": stats}
            if "script" in o1:
                res["script"] = o1["script"]
            return res
    stats["nontrivial"] = fired > 0
    stats["key"] = repr(stats["hashes"])
    for v in viol:
        v.pop("sched", None)
        v.pop("plan", None)
    return {"violations": viol, "stats": stats, "summary": {"faults fired": fired, "runs": stats["runs"]}}


def describe(s):
    out = []
    for k, n in (("alloc", "allocation"), ("thr", "thread start")):
        if s.get(k + "_pm"):
            out.append(f"each {n} refused with probability {s[k + '_pm']}/1000")
        elif s.get(k + "_from", -1) >= 0:
            a, b = s[k + "_from"], s[k + "_to"]
            out.append(f"{n} {a} refused" if b == a + 1 else f"{n}s from {a} on refused" if b >= HUGE else f"{n}s {a}..{b - 1} refused")
    return ", ".join(out) or "no fault"


def isolate(sc, v):
    return sc


def reductions(sc):
    plans = sc["plans"]
    if len(plans) > 1:
        for i in range(len(plans)):
            yield {**sc, "plans": [plans[i]]}
    if len(sc["callers"]) > 1:
        for i in range(len(sc["callers"])):
            yield {**sc, "callers": [sc["callers"][i]]}
    if len(plans) == 1:
        p = plans[0]
        if "alloc" in p and "thread" in p:
            yield {**sc, "plans": [{k: v for k, v in p.items() if k != "alloc"}]}
            yield {**sc, "plans": [{k: v for k, v in p.items() if k != "thread"}]}
        for w in ("alloc", "thread"):
            if w in p:
                if "pm" in p[w]:
                    for at in (0.0, 0.1, 0.3, 0.6, 0.9):
                        yield {**sc, "plans": [{**p, w: {"at": at, "n": 1}}]}
                elif p[w]["n"] > 1:
                    yield {**sc, "plans": [{**p, w: {**p[w], "n": 1}}]}
        for s in forest.sched_reductions(p["sched"]):
            yield {**sc, "plans": [{**p, "sched": s}]}
    for i, ops in enumerate(sc["callers"]):
        for j, op in enumerate(ops):
            for k, lo in (("forest", 1), ("tree", 2), ("seed", 0)):
                for x in forest.smaller(op[k], lo):
                    yield {**sc, "callers": sc["callers"][:i] + [ops[:j] + [{**op, k: x}] + ops[j + 1:]] + sc["callers"][i + 1:]}
    for i, t in enumerate(sc["tables"]):
        for t2 in forest.table_reductions(t):
            yield {**sc, "tables": sc["tables"][:i] + [t2] + sc["tables"][i + 1:]}
