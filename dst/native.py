"""Python side of the native simulator (native/simrt.cpp): runs callers as simulated threads."""
import ctypes
import json
import os
import signal
import sys
import threading
import traceback

CFG = ["seed", "mode", "mean", "conflict_pm", "depth", "length", "ncpu", "budget", "heap_fill", "heap_shift",
       "alloc_from", "alloc_to", "alloc_pm", "alloc_list_n", "thr_from", "thr_to", "thr_pm", "clock0", "spurious_pm",
       "record", "numpy_faults"]
DEFAULT = dict(seed=1, mode=0, mean=200, conflict_pm=0, depth=0, length=1, ncpu=1, budget=400_000_000, heap_fill=-1,
               heap_shift=0, alloc_from=-1, alloc_to=-1, alloc_pm=0, alloc_list_n=0, thr_from=-1, thr_to=-1, thr_pm=0,
               clock0=1_600_000_000_000_000_000, spurious_pm=0, record=0, numpy_faults=0)
OUT = ["steps", "switches", "allocs", "alloc_failed", "thread_starts", "thread_failed", "worker_steps", "gil_held_steps",
       "blocked_holding_gil_steps", "max_threads", "conflicts", "hash", "clock", "deadlock", "budget_exceeded", "leaked",
       "ticks_max_wait", "native_calls", "wakeups", "numpy_allocs", "numpy_failed", "conflict_pairs", "spurious",
       "max_wait_in_call"]

_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        L.sim_out.restype = ctypes.c_void_p
        L.sim_rec.restype = ctypes.c_void_p
        for f in ("sim_nrec", "sim_cfg_size", "sim_out_size", "sim_steps", "sim_yield", "sim_live_workers", "sim_depth"):
            getattr(L, f).restype = ctypes.c_int64
        L.sim_setup.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_int64]
        L.sim_enter.argtypes = [ctypes.c_int64]
        L.sim_set.argtypes = [ctypes.c_int64]
        L.sim_wait.argtypes = [ctypes.c_int64]
        L.sim_set_faults.argtypes = [ctypes.c_int64] * 6
        assert L.sim_cfg_size() == len(CFG), "Cfg"
        assert L.sim_out_size() == len(OUT), "Out"
        _lib = L
    return _lib


FD = -1  # where a fatal condition (deadlock, no progress) is reported


def simulate(callers, sched, script=()):
    """Runs the functions as caller threads under the simulated scheduler.

    Returns (list of results or exceptions, statistics). Does not return on deadlock or lack of progress:
    the process ends with 91 or 92 after a report on FD.
    """
    L = lib()
    cfg = dict(DEFAULT)
    cfg.update({k: v for k, v in sched.items() if k in cfg})
    a = (ctypes.c_int64 * len(CFG))(*[int(cfg[k]) for k in CFG])
    flat = [x for p in script for x in p]
    s = (ctypes.c_int64 * max(1, len(flat)))(*flat)
    L.sim_clear_flags()
    L.sim_setup(a, s, len(flat) // 2, len(callers), FD)
    res = [None] * len(callers)

    def body(i, f):
        L.sim_enter(i)
        try:
            res[i] = ("ok", f())
        except BaseException as e:  # noqa
            res[i] = ("raised", e)
        L.sim_leave()

    ths = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(callers)]
    sw = sys.getswitchinterval()
    sys.setswitchinterval(1000)
    for t in ths:
        t.start()
    L.sim_run()
    L.sim_release_all()
    for t in ths:
        t.join()
    sys.setswitchinterval(sw)
    o = (ctypes.c_int64 * len(OUT)).from_address(L.sim_out())
    out = dict(zip(OUT, [int(x) for x in o]))
    if cfg["record"]:
        n = L.sim_nrec()
        r = (ctypes.c_int64 * (2 * n)).from_address(L.sim_rec()) if n else []
        out["script"] = [[int(r[2 * i]), int(r[2 * i + 1])] for i in range(n)]
    return res, out


PRCTL = ctypes.CDLL(None).prctl


def die_with_parent():
    """No run outlives the check it belongs to."""
    PRCTL(1, signal.SIGKILL, 0, 0, 0)


def in_fork(fn):
    """fn() in a child process. Returns ("ok", value) or ("died", description)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        die_with_parent()
        global FD
        FD = w
        code = 0
        try:
            try:
                out = json.dumps({"value": fn()})
            except BaseException:
                out = json.dumps({"harness": traceback.format_exc()})
            b = out.encode() + b"\n"
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    msg = None
    for line in data.decode(errors="replace").splitlines():
        try:
            msg = json.loads(line)
        except ValueError:
            pass
    if msg and "value" in msg and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return "ok", msg["value"]
    if msg and "harness" in msg:
        raise RuntimeError("harness error in child:\n" + msg["harness"])
    if os.WIFSIGNALED(st):
        import signal

        sig = os.WTERMSIG(st)
        try:
            n = signal.Signals(sig).name
        except ValueError:
            n = str(sig)
        if n == "SIGKILL":
            raise RuntimeError("child was killed (memory or time ran out)")
        return "died", {"how": n, "detail": (msg or {}).get("detail", "")}
    code = os.WEXITSTATUS(st)
    if code == 91:
        return "died", {"how": "deadlock", "detail": (msg or {}).get("detail", "")}
    if code == 92:
        return "died", {"how": "no progress", "detail": (msg or {}).get("detail", "")}
    if code == 97:
        raise RuntimeError("simulator limit reached in child")
    return "died", {"how": f"exit {code}", "detail": (msg or {}).get("detail", "")}
