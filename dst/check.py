"""Runs the check of one property, or replays a file.

python -m dst.check C01            explore (VERIF_SEED, VERIF_TIER)
python -m dst.check replay FILE    execute the scenario of a replay file; exit 1 if it violates, 0 if not
"""
import collections
import hashlib
import importlib
import json
import os
import queue
import random
import select
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
from dst import build  # noqa: E402

PY = "/opt/venv/bin/python"
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known-findings.json")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))


class Harness(Exception):
    pass


class Worker:
    """A zygote process."""

    def __init__(self, modname, bdir, native, hashseed="0"):
        self.args = (modname, bdir, native, hashseed)
        self.p = None

    def start(self):
        modname, bdir, native, hashseed = self.args
        env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")}
        if os.environ.get("VERIF_REPO"):
            env["VERIF_REPO"] = os.environ["VERIF_REPO"]
        env.update(build.ENV)
        env["PYTHONHASHSEED"] = hashseed
        if native:
            env["LD_PRELOAD"] = os.path.join(bdir, "libsimrt.so")
        self.err = open(os.path.join(build.BUILD, f"zygote-{os.getpid()}-{id(self)}.log"), "wb")
        self.p = subprocess.Popen([PY, "-m", "dst.zygote", modname, bdir], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)
        self.buf = b""
        if self.readline(120) != b"ready":
            e = self.errors()
            self.stop()
            raise Harness("zygote did not start: " + e)

    def errors(self):
        try:
            with open(self.err.name, "rb") as f:
                return f.read()[-3000:].decode(errors="replace")
        except OSError:
            return ""

    def readline(self, timeout):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            c = os.read(self.p.stdout.fileno(), 1 << 20)
            if not c:
                return b""
            self.buf += c
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def cpu(self):
        """Processor time, in seconds, of the processes of this worker, which all have its process group."""
        t = 0
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    if os.getpgid(int(d)) != self.p.pid:
                        continue
                    with open(f"/proc/{d}/stat") as f:
                        v = f.read().rsplit(")", 1)[1].split()
                    t += sum(map(int, v[11:15]))
                except OSError:
                    pass
        return t / os.sysconf("SC_CLK_TCK")

    def run(self, scenario, timeout):
        """The result, or None when the time is up."""
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps({"id": 0, "scenario": scenario}).encode() + b"\n")
        self.p.stdin.flush()
        # the time of a run is its processor time, so that a busy machine does not look like a hang; a run that
        # uses none for a while is stuck
        start, cpu, line = time.time(), self.cpu(), self.readline(5)
        last, since = self.cpu(), time.time()
        while line is None and last - cpu < timeout and time.time() - start < 4 * timeout:
            line = self.readline(2)
            now = self.cpu()
            if now > last + 0.02:
                last, since = now, time.time()
            elif time.time() - since > 25:
                break
        if line is None:
            self.stop()
            return None
        if line == b"":
            e = self.errors()
            self.stop()
            raise Harness("zygote died: " + e)
        res = json.loads(line)
        if "error" in res:
            raise Harness(res["error"])
        return res["result"]

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            shutil.rmtree(os.path.join(build.BUILD, f"box-{self.p.pid}"), ignore_errors=True)
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None
            self.err.close()
            try:
                os.unlink(self.err.name)
            except OSError:
                pass


def known(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop and k.get("status") != "fixed"]


def matches(k, v):
    return v["kind"] == k["kind"] and v.get("key", "") == k.get("key", "")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module("dst.props." + prop.lower())
        self.bdir = build.build()
        self.native = getattr(self.mod, "NATIVE", False)
        self.timeout = getattr(self.mod, "TIMEOUT", 60)
        self.known = known(prop)
        self.hung = False  # minimising or confirming a hang: shorter patience

    def worker(self, hashseed="0"):
        return Worker(self.prop.lower(), self.bdir, self.native, hashseed)

    def new_violations(self, res):
        return [v for v in res["violations"] if not any(matches(k, v) for k in self.known)]

    def execute(self, w, sc):
        """Runs a scenario; a scenario that hangs twice counts as a violation where the module says so."""
        if self.hung:
            r = w.run(sc, 20)
            if r is not None:
                return r
        for attempt in range(0 if self.hung else 2):
            r = w.run(sc, self.timeout)
            if r is not None:
                return r
        if getattr(self.mod, "HANG_IS_VIOLATION", False):
            return {"violations": [{"kind": "hang", "detail": f"no end after {self.timeout} s of processor time or stuck, twice (usual: below a second)"}],
                    "stats": {}}
        raise Harness(f"scenario did not end within {self.timeout} s: " + json.dumps(sc)[:2000])

    def explore(self):
        t0 = time.time()
        cap = float(os.environ.get("VERIF_CAP", 420 if self.tier == "quick" else 700))
        todo = queue.Queue()
        total = 0
        for i, sc in enumerate(self.mod.scenarios(self.seed, self.tier)):
            todo.put((i, sc))
            total += 1
        results, found, errors, slow = {}, [], [], []
        lock = threading.Lock()
        stop = threading.Event()

        def loop():
            w = self.worker()
            try:
                while not stop.is_set() and time.time() - t0 < cap:
                    try:
                        i, sc = todo.get_nowait()
                    except queue.Empty:
                        return
                    t = time.time()
                    r = self.execute(w, sc)
                    with lock:
                        results[i] = (sc, r)
                        slow.append((time.time() - t, i))
                        if self.new_violations(r):
                            found.append(i)
                            # let scenarios with lower numbers finish: the report is the same on any machine
                            stop.set()
            except Exception as e:  # noqa
                with lock:
                    errors.append(e)
                stop.set()
            finally:
                w.stop()

        ths = [threading.Thread(target=loop) for _ in range(JOBS)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if os.environ.get("VERIF_DEBUG"):
            print("slowest:", sorted(slow)[-5:], "mean", sum(s for s, _ in slow) / max(1, len(slow)))
        return total, results, sorted(found), errors, time.time() - t0

    # ---------------------------------------------------------------- minimisation
    def still(self, w, sc, kind):
        try:
            r = self.execute(w, sc)
        except Harness:
            w.stop()
            return None
        for v in self.new_violations(r):
            if v["kind"] == kind:
                return v
        return None

    def minimise(self, sc, v, limit):
        t0 = time.time()
        w = self.worker()
        tried = 0
        try:
            pin = getattr(self.mod, "pin", None)
            progress = True
            while progress and time.time() - t0 < limit:
                progress = False
                for cand in self.mod.reductions(sc):
                    if time.time() - t0 > limit:
                        break
                    tried += 1
                    nv = self.still(w, cand, v["kind"])
                    if nv:
                        sc, v, progress = cand, nv, True
                        break
            if pin:
                # fix the schedule as an explicit list of switches, then drop switches
                try:
                    p = w.run({**sc, "record": True}, self.timeout)
                    cand = pin(sc, p) if p else None
                except Harness:
                    w.stop()
                    cand = None
                if cand:
                    nv = self.still(w, cand, v["kind"])
                    if nv:
                        sc, v = cand, nv
                        n = 2
                        while time.time() - t0 < 2 * limit:
                            s = sc["script"]
                            if not s:
                                break
                            size = max(1, len(s) // n)
                            hit = False
                            for a in range(0, len(s), size):
                                if time.time() - t0 > 2 * limit:
                                    break
                                cand = {**sc, "script": s[:a] + s[a + size:]}
                                tried += 1
                                nv = self.still(w, cand, v["kind"])
                                if nv:
                                    sc, v, hit = cand, nv, True
                                    n = max(2, n - 1)
                                    break
                            if not hit:
                                if size == 1:
                                    break
                                n = min(len(s), n * 2)
        finally:
            w.stop()
        return sc, v, tried

    def confirm(self, sc, v, n=2):
        hits = []
        for i in range(n):
            w = self.worker(hashseed=str(i))
            try:
                nv = self.still(w, sc, v["kind"])
            finally:
                w.stop()
            hits.append(nv)
        return hits

    def write_replay(self, sc, v, original, tried, exact):
        os.makedirs(REPLAYS, exist_ok=True)
        body = {"property": self.prop, "violation": v, "scenario": sc, "seed": self.seed, "tier": self.tier,
                "scenario_seed": original.get("seed"), "reductions_tried": tried, "exact": exact,
                "replay": f"{PY} -m dst.check replay <this file>   (in /verif)"}
        h = hashlib.sha256(json.dumps([self.prop, sc], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(REPLAYS, f"{self.prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        return path

    # ---------------------------------------------------------------- evidence
    def evidence(self, total, results, wall, nviol):
        faults, probes = collections.Counter(), collections.Counter()
        runs = steps = simns = 0
        seen, keys, nontriv = set(), set(), 0
        for i in sorted(results):
            sc, r = results[i]
            s = r.get("stats", {})
            runs += s.get("runs", 0)
            steps += s.get("steps", 0)
            simns += s.get("sim_ns", 0)
            for k, n in s.get("faults", {}).items():
                faults[k] += n
            for k, n in s.get("probes", {}).items():
                probes[k] += n
            seen.update(s.get("hashes", []))
            k = s.get("key")
            if s.get("nontrivial") and k not in keys:
                keys.add(k)
                nontriv += 1
        samples = []
        for i in sorted(results)[:400]:
            if results[i][1].get("stats", {}).get("nontrivial"):
                samples.append({"scenario": clip(results[i][0]), "outcome": clip(results[i][1].get("summary", results[i][1].get("stats")))})
            if len(samples) == 2:
                break
        if not samples:
            samples = [{"scenario": clip(results[i][0])} for i in sorted(results)[:1]]
        m = self.mod
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": getattr(m, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": len(results), "distinct_nontrivial": nontriv, "rule": m.RULE, "samples": samples,
                "scenarios_planned": total, "simulated_runs": runs,
                "runs_per_hour": int(runs / max(wall, 1e-3) * 3600), "seeds_per_hour": int(len(results) / max(wall, 1e-3) * 3600),
                "simulated_steps": steps, "simulated_time": getattr(m, "SIMTIME", f"{steps} scheduling steps"),
                "simulated_clock_s": simns / 1e9,
                "faults_fired": dict(sorted(faults.items())), "probes_hit": dict(sorted(probes.items())),
                "distinct_interleavings": len(seen), "interleaving_measure": m.MEASURE,
                "real_components": m.REAL, "stubbed_components": m.STUB,
            },
            "assumptions": getattr(m, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2), "violations": nviol,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return ev


def clip(x, n=40):
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in list(x.items())[:n]}
    if isinstance(x, list):
        return [clip(v, n) for v in x[:n]] + ([f"... {len(x) - n} more"] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + "..."
    return x


def explore(prop, tier, seed):
    t0 = time.time()
    c = Check(prop, tier, seed)
    total, results, found, errors, wall = c.explore()
    seen = set()
    for i in sorted(results):
        for v in results[i][1]["violations"]:
            for k in c.known:
                if matches(k, v) and id(k) not in seen:
                    seen.add(id(k))
                    print(f"KNOWN-FINDING: property={prop} {k['what']}")
    status = 0
    if found:
        sc, r = results[found[0]]
        v = c.new_violations(r)[0]
        if hasattr(c.mod, "isolate"):
            sc = c.mod.isolate(sc, v)
        limit = float(os.environ.get("VERIF_MINIMISE", "40"))
        c.hung = v["kind"] == "hang"
        msc, mv, tried = c.minimise(sc, v, limit)
        hits = c.confirm(msc, mv)
        exact = all(h is not None and h == mv for h in hits)
        if not any(hits):
            # the minimised one does not come back: the scenario as found
            msc, mv, tried = results[found[0]][0], v, 0
            hits = c.confirm(msc, mv, 4)
            exact = all(h is not None and h == mv for h in hits)
        if any(hits):
            path = c.write_replay(msc, mv, results[found[0]][0], tried, exact)
            print(f"{prop}: {mv['kind']}: {mv['detail']}")
            if not exact:
                print(f"note: {sum(h is not None for h in hits)} of {len(hits)} replays in fresh processes show the violation"
                      " (not bit for bit the same: the code under test depends on something outside the simulation)")
            print(f"VIOLATION property={prop} replay={path}")
            status = 1
        else:
            print(f"{prop}: harness error: violation seen once but not on replay: {v}")
            status = 2
    elif errors:
        print(f"{prop}: harness error: {errors[0]}")
        status = 2
    ev = c.evidence(total, results, wall, len(found))
    cov = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {len(results)}/{total} scenarios, {cov['simulated_runs']} simulated runs, "
          f"{cov['simulated_steps']} steps, {cov['distinct_interleavings']} interleavings, faults {sum(cov['faults_fired'].values())}, "
          f"{time.time() - t0:.1f} s, exit {status}")
    return status


def replay(path):
    body = json.load(open(path))
    c = Check(body["property"], body.get("tier", "quick"), body.get("seed", 1))
    c.known = []
    w = c.worker()
    try:
        r = c.execute(w, body["scenario"])
    finally:
        w.stop()
    for v in r["violations"]:
        print(f"{body['property']}: {v['kind']}: {v['detail']}")
    same = any(v["kind"] == body["violation"]["kind"] for v in r["violations"])
    if same:
        print(f"VIOLATION property={body['property']} replay={path}")
        if body["violation"] in r["violations"]:
            print("reproduced exactly")
        return 1
    print("the violation does not occur")
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return explore(prop, tier, seed)
    except build.BuildError as e:
        print("build failed:\n" + str(e))
        return 2
    except Harness as e:
        print(f"harness error: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
