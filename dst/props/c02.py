"""C02: every tree counts once and scores each row along the path it was grown."""
import math
import random

from dst import forest, native

NATIVE = True
TIMEOUT = 60
HANG_IS_VIOLATION = True
prepare = forest.prepare
RULE = ("Seeded scenarios: a table and calls for 1, 2, .., F trees from one seed, each call on its own processor count, interleaving and heap "
        "content; the path length of every row in every single tree is recovered from the differences of the scores and checked against what a "
        "tree of that size over that table can be; plus calls on transformed tables (monotone rescaling, texts replaced by their rank, added "
        "columns that must not matter, excluded columns, other memory layouts). Non-trivial: at least 2 trees and 2 different rows.")
MEASURE, REAL, STUB = forest.MEASURE, forest.REAL, forest.STUB
SIMTIME = "memory accesses and synchronisation steps of the extension; the code under test uses no clock"
ASSUMPTIONS = ["path lengths are recovered from scores with a tolerance of 1e-7",
               "which rows a tree samples is not prescribed, only what follows from sampling without replacement"]
COUNT = {"quick": 5000, "thorough": 24000}
GAMMA = 0.57721566490153286


def c(k):
    return 2 * (math.log(k - 1) + GAMMA) - 2 * (k - 1) / k


def generate(seed):
    rng = random.Random(f"C02/{seed}")
    mode = rng.choice(["trees", "trees", "trees", "sampling", "variants", "variants"])
    if mode == "sampling":
        # few groups of equal rows in one column, more rows than the tree takes
        n = rng.choice([12, 20, 40, 48])
        k = rng.choice([1, 2, 2, 3])
        v = [float(i % k) for i in range(n)]
        rng.shuffle(v)
        t = {"cols": [{"name": "c0", "kind": "f8", "v": v}], "index": list(range(n)), "layout": "dict"}
        m = rng.choice([3, 4, 8, 10, 16, 32, 64])
        F = rng.choice([4, 6, 12])
    else:
        n = rng.choice([1, 2, 3, 4, 6, 8, 9, 12, 16]) if rng.random() < 0.7 else rng.randint(2, 30)
        kinds = None
        if mode == "trees" and rng.random() < 0.6:
            kinds = [rng.choice(["f8", "f8", "txt", "i8"])]
        t = forest.gen_table(rng, n=n, kinds=kinds, others=False)
        m = rng.choice([2, 3, 4, 5, 8, 16, 16, 32, 64])
        F = rng.choice([1, 2, 3, 4, 5, 6])
    x = rng.random()
    least = 50
    if mode != "sampling" and x < 0.07:
        least = 1000
        kinds = [rng.choice(["f8", "f8", "txt", "i8"]) for _ in range(rng.choice([1, 1, 2]))]
        if mode == "trees" and x < 0.035:
            t, m, F = forest.gen_table(rng, n=rng.choice([2, 3, 5, 8]), kinds=kinds, others=False), rng.choice([2, 3, 4, 8]), rng.choice([33, 65, 70])
        elif mode == "trees":
            t, m, F = forest.gen_table(rng, n=rng.choice([65, 100, 129, 300, 600]), kinds=kinds, others=False), rng.choice([8, 16, 32]), rng.choice([1, 2, 3])
        elif x < 0.05:
            t, m, F = forest.gen_table(rng, n=rng.choice([100, 257, 300, 1025]), kinds=kinds, others=False), rng.choice([16, 256, 256, 1000]), rng.choice([1, 2, 4])
        else:
            kinds = [rng.choice(["f8", "f8", "txt", "i8"]) for _ in range(rng.choice([17, 33, 40, 65]))]
            t, m, F = forest.gen_table(rng, n=rng.choice([4, 9]), kinds=kinds, others=False), 8, rng.choice([3, 6])
    if mode == "sampling" and rng.random() < 0.25:
        # many distinct values, far more rows than the tree takes: a row sampled twice shows as a leaf that too few rows lead to
        least = 1000
        n, m, F = rng.choice([(130, 8, 30), (300, 16, 30), (520, 32, 20), (1100, 16, 20), (1100, 64, 12)])
        v = [float(i) for i in range(n)]
        rng.shuffle(v)
        t = {"cols": [{"name": "c0", "kind": "f8", "v": v}], "index": list(range(n)), "layout": "dict"}
    seed_ = rng.choice([0, 1, 2, 5, 42, 1021, rng.randint(0, 10**6)])
    op = {"t": 0, "forest": F, "tree": m, "seed": seed_, "exclude": [], "name": rng.choice(["AnomalyScore", "s"])}
    scheds = []
    for _ in range(F + 4):
        s = forest.gen_sched(rng)
        s["mean"] = max(s["mean"], least)
        if least > 50:
            s["conflict_pm"] = 0
        scheds.append(s)
    return {"seed": seed, "mode": mode, "tables": [t], "op": op, "scheds": scheds, "vseed": rng.getrandbits(30)}


def scenarios(seed, tier):
    for i in range(COUNT[tier]):
        yield generate(f"{seed}/{i}")


# ------------------------------------------------------------------ what a tree can be
def order_key(col):
    """Sort key of the values of a column, as the property orders them."""
    if col["kind"] == "txt":
        return [(len(s.encode()), s.encode()) for s in col["v"]]
    return [(0, 0.0) if isinstance(x, float) and math.isnan(x) else (1, float(x)) for x in col["v"]]


def rank(col):
    k = order_key(col)
    s = sorted(set(k))
    return [float(s.index(x)) for x in k]


def realisable(leaves, H):
    """Is there a binary tree of height <= H with these (depth, rows) leaves in this order, where a node with more
    than one row may also have a child without rows, and a node with one row is a leaf?"""
    memo = {}

    def f(i, j, d):
        if d > H:
            return False
        k = (i, j, d)
        if k in memo:
            return memo[k]
        if i == j:
            depth, size = leaves[i]
            r = depth == d or (size >= 2 and depth > d)
        elif d == H:
            r = False
        else:
            r = f(i, j, d + 1) or any(f(i, x, d + 1) and f(x + 1, j, d + 1) for x in range(i, j))
        memo[k] = r
        return r

    return f(0, len(leaves) - 1, 0)


def check_tree(t, m, h, decode):
    """h: path lengths of all rows in one tree of size m over table t. Returns a complaint or None."""
    n = len(h)
    H = math.ceil(math.log2(m))
    size = min(m, n)
    lv = []
    for i, x in enumerate(h):
        d = decode(x)
        if d is None:
            return f"row {i} has path length {x:.6f}, which no tree of size {m} (height {H}) gives"
        lv.append(d)
    cols = t["cols"]
    keys = list(zip(*[order_key(col) for col in cols])) if cols else [()] * n
    by = {}
    for i, k in enumerate(keys):
        if k in by and lv[by[k]] != lv[i]:
            return f"rows {by[k]} and {i} are equal but end at {lv[by[k]]} and {lv[i]}"
        by.setdefault(k, i)
    ks = {}
    for i, (d, k) in enumerate(lv):
        if k > size:
            return f"row {i} ends with {k} sampled rows, of {size} sampled"
    if n <= m:
        # all rows are in the sample: each is in its own leaf or shares one at height H with k-1 others
        for i, (d, k) in enumerate(lv):
            ks[k] = ks.get(k, 0) + 1
        for k, cnt in ks.items():
            if k >= 2 and cnt % k:
                return f"{cnt} rows end at height {H} in leaves of {k} sampled rows, but all {n} rows are sampled"
        if n >= 2 and not cols:
            return None
        kraft = sum(2.0 ** -d for d, k in lv if k == 1) + sum(2.0 ** -H * cnt / k for k, cnt in ks.items() if k >= 2)
        if kraft > 1 + 1e-9:
            return "the leaves do not fit into one binary tree"
    if len(cols) == 1:
        groups = {}
        for i, k in enumerate(keys):
            groups.setdefault(k, []).append(i)
        gs = [(groups[k], lv[groups[k][0]]) for k in sorted(groups)]
        if n <= m:
            leaves, j = [], 0
            while j < len(gs):
                rows, (d, k) = gs[j]
                if k == 1:
                    if len(rows) > 1:
                        return f"{len(rows)} equal rows end in leaves of one row"
                    leaves.append((d, 1))
                    j += 1
                    continue
                tot = 0
                while j < len(gs) and gs[j][1] == (d, k) and tot < k:
                    tot += len(gs[j][0])
                    j += 1
                if tot != k:
                    return f"leaves of {k} rows at height {d} cannot hold the rows that end there, in the order of the column"
                leaves.append((d, k))
            if len(leaves) <= 24 and not realisable(leaves, H):
                return f"no tree has its leaves in this order (depth, rows): {leaves}"
        else:
            # totals: each leaf's rows are sampled once
            lo = hi = 0
            j = 0
            while j < len(gs):
                rows, (d, k) = gs[j]
                if k == 1:
                    hi += 1
                    j += 1
                    continue
                run, total = 0, 0
                while j < len(gs) and gs[j][1] == (d, k):
                    run += 1
                    total += len(gs[j][0])
                    j += 1
                if total < k:
                    return f"a leaf of {k} sampled rows, but only {total} rows lead to it"
                lo += k
                hi += k * run
            # one-row leaves may be empty; with one group of rows everything is in one leaf
            if not lo <= size <= hi:
                return f"the leaves hold {lo} to {hi} sampled rows, but {size} are sampled"
    return None


def decoder(m, n):
    H = math.ceil(math.log2(m))
    vals = [(float(d), (d, 1)) for d in range(H + 1)]
    vals += [(H + c(k), (H, k)) for k in range(2, max(m, 2) + 1)]

    def decode(x, tol=1e-6):
        best = min(vals, key=lambda v: abs(v[0] - x))
        return best[1] if abs(best[0] - x) <= tol else None

    return decode


# ------------------------------------------------------------------ execution
def execute(sc):
    t, op, mode = sc["tables"][0], sc["op"], sc["mode"]
    n, m, F = len(t["index"]), op["tree"], op["forest"]
    scheds = sc["scheds"]
    rng = random.Random(sc["vseed"])
    stats = {"runs": 0, "steps": 0, "hashes": [], "faults": {"junk-filled fresh memory": 0}, "probes": {}}
    viol = []
    used = [0]

    def simulated(jobs):
        """Runs [(table, op)] in one simulated process each on its own schedule; returns the results."""
        scs = []
        for _ in jobs:
            s = dict(scheds[used[0] % len(scheds)])
            used[0] += 1
            s["budget"] = 300_000_000
            s["length"] = 30000
            scs.append(s)

        def run():
            out = []
            for (tb, o), s in zip(jobs, scs):
                def caller():
                    forest.npmem.install()
                    df, _ = forest.make(tb)
                    return forest.call(df, o)
                r, info = native.simulate([caller], s)
                if r[0][0] != "ok":
                    raise r[0][1]
                out.append((r[0][1], info["steps"], info["hash"], info["switches"]))
            return out

        st, v = native.in_fork(run)
        if st != "ok":
            viol.append({"kind": "process ended", "detail": f"{v['how']} {v['detail']}".strip()})
            return None
        stats["runs"] += len(jobs)
        for (r, steps, h, sw), s in zip(v, scs):
            stats["steps"] += steps
            stats["hashes"].append(h)
            if s["heap_fill"] != -1:
                stats["faults"]["junk-filled fresh memory"] += 1
        return [x[0] for x in v]

    def bad(kind, detail):
        if not viol:
            viol.append({"kind": kind, "detail": detail})

    valid_cols = [x for x in t["cols"] if x["kind"] in ("f8", "f4", "i8", "txt")]
    if mode in ("trees", "sampling"):
        res = simulated([(t, {**op, "forest": f}) for f in range(1, F + 1)])
        if res and all(r[0] == "ok" for r in res):
            prev = [0.0] * n
            decode = decoder(m, n)
            trees = []
            for f, r in enumerate(res, 1):
                if r[2] or len(r[1]) != n:
                    bad("result shape", f"{f} trees: {r[2] or str(len(r[1])) + ' scores for ' + str(n) + ' rows'}")
                    break
                sc_ = [float.fromhex(x) for x in r[1]]
                wrong = [i for i, x in enumerate(sc_) if not 0 < x <= 1]
                if wrong:
                    bad("score range", f"{f} trees: row {wrong[0]} has score {sc_[wrong[0]]!r}")
                    break
                tot = [-math.log2(x) * c(m) * f if m > 2 or True else 0 for x in sc_]
                h = [a - b for a, b in zip(tot, prev)]
                prev = tot
                d = check_tree({**t, "cols": valid_cols}, m, h, decode)
                if d:
                    bad("not a tree", f"tree {f} of {op['forest']} ({n} rows, size {m}): {d}")
                    break
                trees.append(tuple(decode(x) for x in h))
            if not viol and mode == "sampling" and F >= 12 and len(set(v for x in t["cols"] for v in x["v"])) >= 2 and 6 <= m <= n - 6 and n >= 20:
                sizes = {tuple(sorted(k for _, k in set(zip(t["cols"][0]["v"], tr)))) for tr in trees}
                if len(set(trees)) == 1:
                    bad("trees are not independent", f"all {F} trees have the same leaves {trees[0][:8]}: same sample and splits")
                elif len({frozenset((g, l[1]) for g, l in zip(t["cols"][0]["v"], tr)) for tr in trees}) == 1:
                    bad("trees are not independent", f"all {F} trees sampled the same number of each group: {sizes}")
            if not viol and mode == "sampling" and n >= 300 and m >= 16 and len(set(trees)) < len(trees):
                i, j = next((i, j) for j in range(len(trees)) for i in range(j) if trees[i] == trees[j])
                bad("trees are not independent", f"trees {i + 1} and {j + 1} of {F} are the same over {n} different rows")
            if not viol and mode == "trees" and F >= 4 and n >= 12 and m >= 8 and len(valid_cols) and \
                    len(set(order_key(valid_cols[0]))) >= 10 and len(valid_cols) == 1 and len(set(trees)) == 1:
                bad("trees are not independent", f"all {F} trees are the same over {n} different rows")
            stats["probes"]["trees checked"] = len(trees)
            stats["probes"]["leaves shared by several rows"] = sum(k >= 2 for tr in trees for _, k in tr)
        elif res:
            if any(r[0] == "ok" for r in res) and any(r[0] == "raised" for r in res):
                bad("raises", f"{[r[:2] if r[0] == 'raised' else 'ok' for r in res]}")
            elif valid_numeric(t) and n >= 1 and m >= 2:
                bad("raises", f"{res[0][1]} for a valid table")
    else:
        jobs = [("same call", t, op)]
        # monotone rescaling of a numeric column (exact in binary)
        t1 = {**t, "cols": [{**x, "v": [2.0 * v + 4.0 for v in x["v"]]} if x["kind"] == "f8" and all(abs(v) < 1e100 or not math.isfinite(v) for v in x["v"])
                            and distinct(x["v"], [2.0 * v + 4.0 for v in x["v"]]) else x for x in t["cols"]]}
        jobs.append(("numbers rescaled", t1, op))
        # texts by their rank, as numbers behind the other numbers
        nums = [x for x in t["cols"] if x["kind"] != "txt"]
        txts = [x for x in t["cols"] if x["kind"] == "txt"]
        if txts:
            t2 = {**t, "layout": "dict", "cols": nums + [{"name": x["name"], "kind": "f8", "v": rank(x)} for x in txts]}
            jobs.append(("texts replaced by their rank", t2, op))
        ranked = {**t, "layout": "dict", "cols": [{**x, "kind": "f8", "v": rank(x)} if x["kind"] != "txt" and not any(isinstance(v, float) and math.isnan(v) for v in x["v"]) else x for x in t["cols"]]}
        jobs.append(("numbers replaced by their rank", ranked, op))
        extra = {"name": "extra", "kind": rng.choice(["bool", "dt", "cat"]), "v": None}
        extra["v"] = {"bool": [bool(rng.getrandbits(1)) for _ in range(n)], "dt": list(range(n)), "cat": ["x"] * n}[extra["kind"]]
        k = rng.randint(0, len(t["cols"]))
        jobs.append((f"a {extra['kind']} column added", {**t, "layout": "dict", "cols": t["cols"][:k] + [extra] + t["cols"][k:]}, op))
        ex = [forest.gen_column(rng, rng.choice(["f8", "txt", "i8"]), n, f"x{i}") for i in range(rng.randint(1, 2))]
        cols = list(t["cols"])
        for e in ex:
            cols.insert(rng.randint(0, len(cols)), e)
        jobs.append(("excluded columns added", {**t, "layout": "dict", "cols": cols}, {**op, "exclude": [e["name"] for e in ex]}))
        lay = rng.choice(["dict", "block", "fortran", "insert", "strided"])
        jobs.append((f"built as {lay}", {**t, "layout": lay}, op))
        order = [x for x in t["cols"] if x["kind"] == "txt"] + [x for x in t["cols"] if x["kind"] != "txt"]
        jobs.append(("texts first", {**t, "layout": "dict", "cols": order}, op))
        idx = [f"z{i}" for i in range(n)]
        jobs.append(("other index", {**t, "index": idx, "layout": "dict"}, op))
        if sc.get("variants") is not None:
            jobs = [jobs[0]] + [j for j in jobs[1:] if j[0] in sc["variants"]]
        res = simulated([(a, b) for _, a, b in jobs])
        if res:
            for (name, _, _), r in zip(jobs[1:], res[1:]):
                d = forest.scores_differ(r, res[0])
                if d:
                    bad("scores change", f"{name}: {d}")
                    break
            if res[0][0] == "raised" and valid_numeric(t) and m >= 2:
                bad("raises", f"{res[0][1]} for a valid table")
            stats["probes"]["variants compared"] = len(jobs) - 1
    stats["nontrivial"] = F >= 2 and n >= 2 and bool(stats["hashes"])
    stats["key"] = repr(sorted(stats["hashes"]))
    return {"violations": viol, "stats": stats, "summary": {"mode": mode, "runs": stats["runs"], "steps": stats["steps"]}}


def distinct(a, b):
    """The rescaling kept different values different."""
    return len({x for x in a if not math.isnan(x)}) == len({x for x in b if not math.isnan(x)})


def valid_numeric(t):
    return len(t["cols"]) > 0 and any(c_["kind"] in ("f8", "i8", "f4", "txt") for c_ in t["cols"]) and len(t["index"]) > 0


def reductions(sc):
    op, t = sc["op"], sc["tables"][0]
    for k, lo in (("forest", 1), ("tree", 2), ("seed", 0)):
        for x in forest.smaller(op[k], lo):
            yield {**sc, "op": {**op, k: x}}
    for t2 in forest.table_reductions(t):
        yield {**sc, "tables": [t2]}
    simple = {"seed": 1, "mode": 0, "ncpu": 1, "heap_fill": -1}
    for i, s in enumerate(sc["scheds"]):
        if s != simple:
            yield {**sc, "scheds": sc["scheds"][:i] + [simple] + sc["scheds"][i + 1:]}
            for s2 in forest.sched_reductions(s):
                yield {**sc, "scheds": sc["scheds"][:i] + [s2] + sc["scheds"][i + 1:]}
