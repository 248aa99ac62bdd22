"""Deterministic simulation of frds' Python code: threads, interrupts and the seams to the outside.

Threads are real, but only the one that holds the baton runs. It is passed on at events in the code
under test: every line, call return, backward jump and lock operation is an event, seen through
sys.monitoring. Which event passes it on, and to whom, follows from a seed or from a script.
The seams are installed once per process, before frds is imported: locks and threads, the optimisers
of scipy, the random generators of numpy, opening of files, sleeping. Outside a simulation they
are transparent.
"""
import _thread
import ast
import builtins
import dis
import io
import os
import queue
import random
import sys
import threading
import time
import zlib
from collections import Counter

from dst import build

SIM = None  # the running simulation
SRC = os.path.join(build.REPO, "src", "frds") + os.sep
TOOL = 3
MON = sys.monitoring
EV = MON.events

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_get_ident = _thread.get_ident
_FileIO = io.FileIO


class Deadlock(BaseException):
    """Raised in the threads of a simulation that cannot go on."""


class Rec:
    """A simulated thread."""

    __slots__ = ("tid", "baton", "waiting", "done", "result", "ident", "points", "fault", "op", "deadline", "quiet", "fired", "seen", "abort", "imports", "minimised", "pending")

    def __init__(self, tid):
        self.tid = tid
        self.baton = _real_lock()
        self.baton.acquire()
        self.waiting = None  # what the thread waits for, or None
        self.done = False
        self.result = None
        self.ident = None
        self.points = 0  # interrupt points passed in this operation
        self.fault = None  # interrupt planned for this operation
        self.op = -1
        self.deadline = None
        self.quiet = 0  # > 0: no interrupts
        self.fired = None
        self.seen = None
        self.abort = False
        self.pending = None  # an interrupt chosen at a backward jump: (code, destination)
        self.minimised = 0  # minimisations finished in this operation
        self.imports = 0  # > 0: the thread holds import locks, which are real ones: no switches


class Sim:
    """One run. cfg: {mode, gap, seed, script, budget}."""

    def __init__(self, cfg=None):
        cfg = cfg or {}
        self.cfg = cfg
        self.rng = random.Random(f"sched/{cfg.get('seed', 0)}")
        self.mode = cfg.get("mode", "gap")
        self.gap = cfg.get("gap", 50)
        self.script = {int(n): int(t) for n, t in cfg["script"]} if cfg.get("script") is not None else None
        self.budget = cfg.get("budget", 3_000_000)
        self.events = 0
        self.jumps = 0
        self.clock = 0.0
        self.switches = []  # (event, thread)
        self.recs = []
        self.by_ident = {}
        self.failed = None  # deadlock or no progress
        self.count = Counter()
        self.faults = Counter()
        self.log = []
        self.next = self.draw()
        self.on_event = None  # called at every event, with the thread
        self.h = 0
        self.live = _real_lock()
        self.rngs = {}

    # ------------------------------------------------------------ scheduling
    def draw(self):
        if self.mode == "none" or self.script is not None:
            return 1 << 60
        return self.events + 1 + int(self.rng.expovariate(1.0 / self.gap))

    def me(self):
        return self.by_ident.get(_get_ident())

    def runnable(self, but=None):
        return [r for r in self.recs if not r.done and r.waiting is None and r is not but and r.ident is not None]

    def event(self, me, where):
        self.events += 1
        n = self.events
        if self.on_event is not None:
            self.on_event(me)
        if n > self.budget:
            self.fail("no progress", f"still running after {self.budget} events")
        if me.abort:
            raise Deadlock(self.failed)
        if me.imports:
            return
        to = None
        if self.script is not None:
            t = self.script.get(n)
            if t is not None and t != me.tid:
                c = [r for r in self.runnable(me) if r.tid == t]
                to = c[0] if c else None
        elif self.mode == "rare":
            c = self.count[where] + 1
            self.count[where] = c
            p = self.rng.random()
            if p < (0.25 if c <= 2 else 0.02 if c <= 20 else 0.3 / self.gap):
                c = self.runnable(me)
                to = self.rng.choice(c) if c else None
        elif n >= self.next:
            self.next = self.draw()
            c = self.runnable(me)
            to = self.rng.choice(c) if c else None
        if to is not None:
            self.switch(me, to)

    def switch(self, me, to):
        self.switches.append((self.events, to.tid))
        self.h = zlib.crc32(b"%d/%d" % (self.events, to.tid), self.h)
        to.baton.release()
        me.baton.acquire()
        if me.abort:
            raise Deadlock(self.failed)

    def pass_on(self, me):
        """The current thread cannot run (it waits, or is done): someone else goes on."""
        while True:
            c = self.runnable(me)
            if c:
                if self.script is not None:
                    t = self.script.get(self.events)
                    p = [r for r in c if r.tid == t]
                    to = p[0] if p else c[0]
                else:
                    to = self.rng.choice(c)
                self.switches.append((self.events, to.tid))
                self.h = zlib.crc32(b"%d>%d" % (self.events, to.tid), self.h)
                return to
            timed = [r for r in self.recs if not r.done and r.deadline is not None]
            if timed:
                r = min(timed, key=lambda r: (r.deadline, r.tid))
                self.clock = max(self.clock, r.deadline)
                r.deadline = None
                r.waiting = None
                if r is me:
                    return me
                continue
            left = [r for r in self.recs if not r.done and r.ident is not None]
            if not left:
                return None
            self.fail("deadlock", "; ".join(f"thread {r.tid} waits for {r.waiting}" for r in left))
            for r in left:
                r.waiting = None
            if not me.done:
                return me

    def fail(self, kind, detail):
        if self.failed is None:
            self.failed = (kind, detail)
        for r in self.recs:
            r.abort = True

    def block(self, me, what, timeout=None):
        """The current thread waits until someone sets its 'waiting' to None."""
        me.waiting = what
        if timeout is not None:
            me.deadline = self.clock + max(0.0, timeout)
        self.events += 1
        to = self.pass_on(me)
        if to is not me and to is not None:
            to.baton.release()
            me.baton.acquire()
        me.deadline = None
        if me.abort:
            raise Deadlock(self.failed)

    def wake(self, what):
        for r in self.recs:
            if r.waiting is what:
                r.waiting = None

    # ------------------------------------------------------------ threads
    def adopt(self):
        r = Rec(len(self.recs))
        self.recs.append(r)
        return r

    def body(self, rec, fn):
        rec.baton.acquire()
        try:
            if not rec.abort:
                rec.result = ("ok", fn())
        except BaseException as e:  # noqa
            rec.result = ("raised", e)
        self.finish(rec)

    def finish(self, rec):
        rec.done = True
        self.by_ident.pop(_get_ident(), None)
        for r in self.recs:
            if r.waiting == ("join", rec.tid):
                r.waiting = None
        to = self.pass_on(rec)
        if to is not None:
            to.baton.release()
        else:
            self.live.release()

    def run(self, bodies):
        """Runs the functions, each in a thread. Returns [("ok", value) or ("raised", exception)]."""
        global SIM
        assert SIM is None
        SIM = self
        self.live.acquire()
        recs = [self.adopt() for _ in bodies]
        ready = _real_lock()
        sw = sys.getswitchinterval()
        sys.setswitchinterval(1000)
        try:
            for rec, fn in zip(recs, bodies):
                ready.acquire()

                def go(rec=rec, fn=fn):
                    rec.ident = _get_ident()
                    self.by_ident[rec.ident] = rec
                    ready.release()
                    self.body(rec, fn)

                _thread.start_new_thread(go, ())
                ready.acquire()
                ready.release()
            first = self.recs[self.rng.randrange(len(recs))] if self.script is None else self.recs[self.script.get(0, 0)]
            self.switches.append((0, first.tid))
            first.baton.release()
            self.live.acquire()
        finally:
            SIM = None
            sys.setswitchinterval(sw)
        return [r.result for r in recs]

    # ------------------------------------------------------------ interrupts
    def begin(self, op, fault=None):
        """A new operation of the current thread, with its planned interrupt."""
        r = self.me()
        r.op, r.points, r.fault, r.fired, r.seen, r.minimised, r.pending = op, 0, fault, None, None, 0, None
        return r

    def point(self, me, code, where, kind, dest=None):
        """A place where CPython delivers signals: it may raise here."""
        me.points += 1
        f = me.fault
        if f is None or me.quiet or me.minimised < f.get("after", 0):
            return
        if f.get("near") and not near(code):
            return
        if "idx" in f:
            hit = me.points - 1 == f["idx"]
            if hit and tidying(code):
                f["idx"] += 1
                return
        else:
            key = (code.co_filename, code.co_qualname, where, kind)
            if me.seen is None:
                me.seen = Counter()
            hit = zlib.crc32(f"{short(code.co_filename)}:{code.co_qualname}:{where}:{kind}:{f['salt']}".encode()) % f["m"] == 0
            if hit and tidying(code):
                return
            if hit:
                me.seen[key] += 1
                hit = me.seen[key] == f["occ"]
        if hit:
            if dest is not None:  # delivered at the destination, which has the same handlers
                me.pending = (code, dest, where)
            else:
                self.fire(me, code, where)

    def fire(self, me, code, where):
        f, me.fault = me.fault, None
        me.fired = [me.op, me.points - 1, f"{short(code.co_filename)}:{lineno(code, where)} ({code.co_qualname})"]
        self.faults["interrupt: " + f["exc"]] += 1
        self.log.append(me.fired)
        strike(f)


_finals = {}


def final_lines(filename):
    """Lines of the 'finally' parts of a file."""
    r = _finals.get(filename)
    if r is None:
        r = set()
        try:
            with _FileIO(filename) as f:
                t = ast.parse(f.read())
        except (OSError, SyntaxError):
            t = ast.Module([], [])
        for n in ast.walk(t):
            for x in getattr(n, "finalbody", None) or ():
                r.update(range(x.lineno, x.end_lineno + 1))
        _finals[filename] = r
    return r


def tidying(code):
    """Whether the point is in the entry or exit of a context manager or in a 'finally' part. Whatever the code, a signal there
    leaves things as they are: CPython makes no promise, and code is not held to one."""
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    while f is not None:
        if f.f_code.co_name in ("__enter__", "__exit__") or kind_of(f.f_code) == 2 and f.f_lineno in final_lines(f.f_code.co_filename):
            return True
        f = f.f_back
    return False


def near(code):
    """Whether the point is in the code under test or in a function called directly by it."""
    if kind_of(code) == 2:
        return True
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is not None and f.f_back is not None and kind_of(f.f_back.f_code) == 2


ENDED = 93  # the exit code of a process that was ended by a fault


def strike(f):
    if f["exc"] == "end":
        os._exit(ENDED)
    raise EXC[f["exc"]]("simulated")


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "TimeoutError": TimeoutError, "MemoryError": MemoryError, "SystemExit": SystemExit}


def short(f):
    for m in ("/src/frds/", "/scipy/", "/numpy/", "/pandas/", "/matplotlib/"):
        if m in f:
            return m.split("/")[-2] + "/" + f.split(m, 1)[1]
    return os.path.basename(f)


def lineno(code, off):
    if off < 0:
        return code.co_firstlineno
    for a, b, n in code.co_lines():
        if a <= off < b:
            return n
    return code.co_firstlineno


# ---------------------------------------------------------------- monitoring
DELIVER = ()  # file name parts where interrupts are delivered besides frds
STARTS = ()  # file name parts where they are delivered at function starts only
_watch_cache = {}


def kind_of(code):
    """2: the code under test; 1: only interrupts are delivered; 0: neither."""
    f = code.co_filename
    k = _watch_cache.get(f)
    if k is None:
        if f.startswith(SRC):
            k = 2
        elif any(d in f for d in DELIVER):
            k = 1
        elif f.endswith("/warnings.py"):
            k = 3
        else:
            k = 0
        _watch_cache[f] = k
    return k


def on_start(code, off):
    s = SIM
    k = kind_of(code)
    if not k:
        return MON.DISABLE
    if s is None:
        return
    me = s.me()
    if me is None:
        return
    arm(code, k)
    if k != 3 and code.co_name != "<module>":
        s.point(me, code, -1, "start")


_armed = set()


def arm(code, k):
    if code in _armed:
        return
    _armed.add(code)
    if code.co_name == "<module>":
        return
    if any(x in code.co_filename for x in STARTS):
        return
    ev = {2: EV.LINE | EV.JUMP | EV.CALL | EV.C_RETURN, 1: EV.JUMP | EV.LINE | EV.CALL, 3: EV.LINE}[k]
    ev &= ~EV.C_RETURN
    MON.set_local_events(TOOL, code, ev)


def on_line(code, line):
    s = SIM
    if s is None:
        return
    me = s.me()
    if me is None:
        return
    if me.pending is not None:
        (c, dest, where), me.pending = me.pending, None
        if c is code and me.fault is not None and 0 <= sys._getframe(1).f_lasti - dest <= 4:
            s.fire(me, code, where)
    if kind_of(code) != 1:
        s.event(me, (code, line))


_tables = {}


def covered(code, off, dest):
    """Whether a signal delivered at a backward jump meets the same handlers wherever it is taken to arise: at the jump,
    at its destination or just before either. CPython 3.12 takes it to arise before the destination, which for
    some loops is outside the 'try' or 'with' around them, whatever the code does."""
    t = _tables.get(code)
    if t is None:
        t = _tables[code] = (dis._parse_exception_table(code), {})
    r = t[1].get(off)
    if r is None:
        def at(o):
            return [(e.target, e.depth) for e in t[0] if e.start <= o < e.end]

        def before(o):
            o -= 2
            while o > 0 and code.co_code[o] in (dis.EXTENDED_ARG, 0):
                o -= 2
            return o

        r = t[1][off] = at(off) == at(before(off)) == at(dest) == at(before(dest))
    return r


def on_jump(code, off, dest):
    if dest > off:
        return
    s = SIM
    if s is None:
        return
    me = s.me()
    if me is None:
        return
    s.jumps += 1
    if s.jumps > 5 * s.budget:
        s.fail("no progress", f"still running after {5 * s.budget} loop iterations")
    if me.abort:
        raise Deadlock(s.failed)
    if covered(code, off, dest):
        s.point(me, code, off, "jump", dest)


def begins_in_python(f):
    """Whether the call of f first runs Python code that is not watched: a signal that arrives when it starts,
    before it has done anything, is the same as one at the call."""
    f = getattr(f, "__func__", f)
    if isinstance(f, type) and f.__module__ != "builtins":
        f = f.__init__
    c = getattr(f, "__code__", None)
    if getattr(f, "__name__", "") in ("__enter__", "__exit__"):
        return False
    if c is not None:
        # simulated locks stand for ones written in C
        return kind_of(c) == 0 and c.co_filename != __file__
    return type(f).__name__ == "_ArrayFunctionDispatcher"  # Python, called by numpy


KW_NAMES, CALL = dis.opmap.get("KW_NAMES"), dis.opmap["CALL"]


def plain(code, off):
    """Whether the call has no keyword or starred arguments. CPython 3.12 would use the names for the next call, or release
    the arguments twice, if an exception arises in the callback."""
    b = code.co_code
    if b[off] != CALL:
        return False
    while off >= 2 and b[off - 2] == dis.EXTENDED_ARG:
        off -= 2
    return off < 2 or b[off - 2] != KW_NAMES


def on_call(code, off, callee, arg):
    s = SIM
    if s is None:
        return
    me = s.me()
    if me is None or me.fault is None or kind_of(code) != 2 or code.co_name == "<module>":
        return
    if plain(code, off) and begins_in_python(callee):
        s.point(me, code, off, "call")


def on_c_return(code, off, callee, arg):
    s = SIM
    if s is None:
        return
    me = s.me()
    if me is None or kind_of(code) not in (1, 2) or code.co_name == "<module>":
        return
    s.point(me, code, off, "call")


def start_monitoring(deliver=("/scipy/optimize/",)):
    global DELIVER
    DELIVER = tuple(deliver)
    MON.use_tool_id(TOOL, "dst")
    MON.register_callback(TOOL, EV.PY_START, on_start)
    MON.register_callback(TOOL, EV.PY_RESUME, on_start)
    MON.register_callback(TOOL, EV.LINE, on_line)
    MON.register_callback(TOOL, EV.JUMP, on_jump)
    MON.register_callback(TOOL, EV.CALL, on_call)
    MON.register_callback(TOOL, EV.C_RETURN, on_c_return)
    MON.set_events(TOOL, EV.PY_START | EV.PY_RESUME)


def stop_monitoring():
    MON.set_events(TOOL, 0)
    for e in (EV.PY_START, EV.PY_RESUME, EV.LINE, EV.JUMP, EV.CALL, EV.C_RETURN):
        MON.register_callback(TOOL, e, None)
    MON.free_tool_id(TOOL)


# ---------------------------------------------------------------- locks and threads
class SimLock:
    _make = staticmethod(_real_lock)
    name = "a lock"

    def __init__(self):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        me = s.me() if s is not None else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        s.event(me, ("lock", id(self)))
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else s.clock + timeout
        while True:
            s.block(me, self, None if end is None else end - s.clock)
            if me.fault is not None and not me.quiet and me.fault.get("lock"):
                f, me.fault = me.fault, None
                me.fired = [me.op, me.points, "waiting for a lock"]
                s.faults["interrupt: " + f["exc"]] += 1
                s.log.append(me.fired)
                strike(f)
            if self._l.acquire(False):
                return True
            if end is not None and s.clock >= end:
                return False

    def release(self):
        self._l.release()
        s = SIM
        if s is not None:
            me = s.me()
            s.wake(self)
            if me is not None:
                s.event(me, ("unlock", id(self)))

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __repr__(self):
        return self.name

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()


class SimRLock(SimLock):
    _make = staticmethod(_real_rlock)
    name = "a re-entrant lock"

    def _is_owned(self):
        return self._l._is_owned()

    def _release_save(self):
        st = self._l._release_save()
        if SIM is not None:
            SIM.wake(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._l.release()
        self._l._acquire_restore(st)


def _start_new_thread(fn, args=(), kwargs={}):
    s = SIM
    me = s.me() if s is not None else None
    if me is None:
        return _thread.start_new_thread(fn, args, kwargs)
    rec = s.adopt()
    ready = _real_lock()
    ready.acquire()

    def go():
        rec.ident = _get_ident()
        s.by_ident[rec.ident] = rec
        ready.release()
        s.body(rec, lambda: fn(*args, **kwargs))

    th = getattr(fn, "__self__", None)
    if isinstance(th, threading.Thread):
        th._dst_rec = rec
    t = _thread.start_new_thread(go, ())
    ready.acquire()
    return t


_real_join = threading.Thread.join


def _join(self, timeout=None):
    s = SIM
    me = s.me() if s is not None else None
    r = getattr(self, "_dst_rec", None)
    if me is not None and r in s.recs:
        if not r.done:
            s.block(me, ("join", r.tid), timeout)
            if not r.done:
                return
        timeout = None
    return _real_join(self, timeout)


_real_sleep = time.sleep


def _sleep(t):
    s = SIM
    me = s.me() if s is not None else None
    if me is None:
        return _real_sleep(t)
    s.block(me, ("sleep", me.tid), t)


def install_threads():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _sleep
    _thread_allocate = _thread.allocate_lock  # noqa: F841  (the real one stays for the simulator)


def install_imports():
    import importlib._bootstrap as b

    m = b._ModuleLockManager
    enter, leave = m.__enter__, m.__exit__

    def count(n):
        me = SIM.me() if SIM is not None else None
        if me is not None:
            me.imports += n

    def __enter__(self):
        enter(self)
        count(1)

    def __exit__(self, *a):
        count(-1)
        return leave(self, *a)

    m.__enter__, m.__exit__ = __enter__, __exit__


# ---------------------------------------------------------------- optimisers
MIN_POLICY = None  # fn(call record) -> plan or None; set by a check, called for each minimisation
MIN_LOG = []  # records of the minimisations made since it was cleared


def note(name):
    if SIM is not None:
        SIM.faults[name] += 1


def make_minimize(real):
    import functools

    import numpy as np
    from scipy.optimize import OptimizeResult

    @functools.wraps(real)
    def minimize(fun, x0, args=(), method=None, **kw):
        s = SIM
        me = s.me() if s is not None else None
        if me is None:
            return real(fun, x0, args, method, **kw)
        recd = {"tid": me.tid, "op": me.op, "x0": [float(v) for v in np.ravel(np.asarray(x0, dtype=float))]}
        plan = MIN_POLICY(recd) if MIN_POLICY is not None else None
        MIN_LOG.append(recd)
        recd["plan"] = plan["what"] if plan else "real"
        n = [0]
        if plan and plan["what"] == "raise":
            note("optimiser raises " + plan["exc"])
            raise ERR[plan["exc"]]("simulated")
        if plan and plan["what"] in ("raise_eval",):
            inner = fun

            def fun(*a):  # noqa
                n[0] += 1
                if n[0] > plan["eval"]:
                    n[0] = -(1 << 60)
                    note("objective raises " + plan["exc"])
                    raise ERR[plan["exc"]]("simulated")
                return inner(*a)

        if plan and plan["what"] == "limit":
            kw = {**kw, "options": {**(kw.get("options") or {}), "maxiter": plan.get("n", 1)}}
        if plan and plan["what"] == "stub":
            res = stub(plan, fun, x0, args, kw, np, OptimizeResult)
            note("optimiser replaced")
        elif plan and plan["what"] == "fail" and plan.get("early"):
            x = np.array(x0, dtype=float)
            res = OptimizeResult(x=x, fun=np.nan if plan.get("nan") else float(fun(x, *argt(args))), success=False, status=4,
                                 message="Inequality constraints incompatible", nit=1, nfev=1)
        else:
            res = real(fun, x0, args, method, **kw)
        if plan and plan["what"] in ("fail", "limit"):
            if plan["what"] == "fail":
                note("optimiser fails")
            elif not res.success:
                note("optimiser reaches its iteration limit")
            res.success = False if plan["what"] == "fail" else res.success
            if plan["what"] == "fail" and not res.get("status"):
                res.status, res.message = 8, "Positive directional derivative for linesearch"
        me.minimised += 1
        recd.update(success=bool(res.success), x=[float(v) for v in res.x], fun=float(res.fun))
        return res

    return minimize


def argt(a):
    return a if isinstance(a, tuple) else (a,)


def stub(plan, fun, x0, args, kw, np, OptimizeResult):
    """Any optimiser: evaluates legal points in some order, returns one of them with its value."""
    rng = random.Random(f"stub/{plan['seed']}")
    x0 = np.asarray(x0, dtype=float)
    bounds = kw.get("bounds") or [(None, None)] * len(x0)
    cons = kw.get("constraints") or ()
    cons = [cons] if isinstance(cons, dict) else list(cons)
    inf = float("inf")
    bd = [(-inf if a is None else a, inf if b is None else b) for a, b in bounds]

    def legal(x):
        return all(a <= v <= b for v, (a, b) in zip(x, bd)) and all(c["fun"](x) >= 1e-9 for c in cons if c["type"] == "ineq")

    def cand():
        x = []
        for v, (a, b) in zip(x0, bd):
            if b - a < 10:
                x.append(rng.choice([rng.uniform(a, b), v, a + (b - a) * rng.random() ** 3, min(b, max(a, v + rng.gauss(0, 0.05 * (b - a))))]))
            else:
                x.append(min(b, max(a, v * rng.uniform(0.5, 1.5) + (rng.gauss(0, 0.1) if a == -inf else 0.0))))
        return np.array(x)

    pts = []
    for _ in range(plan.get("n", 6) * 20):
        x = cand()
        if legal(x):
            f = float(fun(x.copy(), *argt(args)))
            if np.isfinite(f):
                pts.append((x, f))
        if len(pts) >= plan.get("n", 6):
            break
    if not pts:
        return OptimizeResult(x=x0.copy(), fun=float(fun(x0.copy(), *argt(args))), success=False, status=8, message="no point", nit=1, nfev=1)
    x, f = rng.choice(pts) if plan.get("any", True) else min(pts, key=lambda p: p[1])
    for _ in range(plan.get("after", 2)):
        # a last look around, as finite differences do
        y = np.array([min(b, max(a, v + rng.choice([0.0, 1e-8, 1e-3]))) for v, (a, b) in zip(rng.choice([x, cand()]), bd)])
        fun(y, *argt(args))
    if plan.get("fail"):
        return OptimizeResult(x=x, fun=f, success=False, status=1, message="STOP: TOTAL NO. OF ITERATIONS REACHED LIMIT", nit=len(pts), nfev=len(pts))
    return OptimizeResult(x=x, fun=f, success=True, status=0, message="Optimization terminated successfully", nit=len(pts), nfev=len(pts))


ERR = {"MemoryError": MemoryError, "ValueError": ValueError, "FloatingPointError": FloatingPointError, "ZeroDivisionError": ZeroDivisionError,
       "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError, "TimeoutError": TimeoutError}


def install_optimisers():
    import scipy.optimize as so

    so.minimize = make_minimize(so.minimize)


# ---------------------------------------------------------------- files
OPEN_POLICY = None  # fn(path, mode) -> None (the real file), an exception to raise, or a file object
OPENED = []
RAW_FD = {}  # descriptors of simulated files


def install_files():
    real = builtins.open

    def sim_open(file, mode="r", *a, **kw):
        s = SIM
        if isinstance(file, int) and file in RAW_FD:
            f = io.BufferedWriter(RAW_FD[file])
            return f if "b" in mode else io.TextIOWrapper(f, write_through=True)
        if s is None or OPEN_POLICY is None or s.me() is None or not isinstance(file, (str, bytes, os.PathLike)):
            return real(file, mode, *a, **kw)
        r = OPEN_POLICY(os.fsdecode(file), mode, lambda: real(file, mode, *a, **kw))
        if r is None:
            return real(file, mode, *a, **kw)
        if isinstance(r, BaseException):
            raise r
        return r

    builtins.open = sim_open
    io.open = sim_open
    os_open, os_write, os_close = os.open, os.write, os.close

    def raw_open(path, flags, *a, **kw):
        """Descriptors that are written to are those of the simulated files."""
        s = SIM
        if s is None or OPEN_POLICY is None or s.me() is None or kw or not flags & (os.O_WRONLY | os.O_RDWR) or not isinstance(path, (str, bytes, os.PathLike)):
            return os_open(path, flags, *a, **kw)
        r = OPEN_POLICY(os.fsdecode(path), "fd-w", None)
        if isinstance(r, BaseException):
            raise r
        f = getattr(r, "raw", None)
        if f is None or not hasattr(f, "adopt"):
            return os_open(path, flags, *a)
        r.detach()
        f.adopt(os_open(path, flags, *a))
        RAW_FD[f.fileno()] = f
        return f.fileno()

    def raw_write(fd, data):
        f = RAW_FD.get(fd)
        return os_write(fd, data) if f is None else f.write(data)

    def raw_close(fd):
        f = RAW_FD.pop(fd, None)
        return os_close(fd) if f is None else f.close()

    os.open, os.write, os.close = raw_open, raw_write, raw_close


def install(deliver=("/scipy/optimize/",)):
    install_threads()
    install_imports()
    install_optimisers()
    install_files()
    start_monitoring(deliver)


# ---------------------------------------------------------------- helpers for the checks
def gen_fault(rng, excs=("KeyboardInterrupt", "KeyboardInterrupt", "TimeoutError", "MemoryError"), after=(0,)):
    """An interrupt: at the n-th time that one place, drawn uniformly from the places passed, is passed.
    Either anywhere, or in the code under test and what it calls directly only; at once, or only after some minimisations."""
    f = {"exc": rng.choice(excs), "m": rng.choice([12, 30, 60, 120]), "salt": rng.getrandbits(30), "occ": rng.choice([1, 1, 1, 2, 3, 8, 40])}
    if rng.random() < 0.4:
        f.update(near=True, m=rng.choice([4, 12, 30]))
    k = rng.choice(after)
    if k:
        f.update(after=k, m=rng.choice([2, 4, 12]), occ=rng.choice([1, 2, 3, 4]))
    return f


def gen_sched(rng, threads):
    if threads == 1:
        return {"mode": "none"}
    return {"mode": rng.choice(["gap", "rare", "rare"]), "gap": rng.choice([2, 8, 30, 120, 600]), "seed": rng.getrandbits(30)}


def settings():
    """What a process shares and an estimation must leave as it was."""
    import warnings

    import numpy as np

    st = np.random.get_state()
    return {
        "warning filters": [repr(f) for f in warnings.filters],
        "warnings.showwarning": [repr(getattr(warnings.showwarning, "__qualname__", "")), repr(getattr(warnings._showwarnmsg_impl, "__qualname__", ""))],
        "floating-point error handling": repr(sorted(np.geterr().items())) + repr(np.geterrcall()),
        "numpy's global random state": repr(st[0]) + st[1].tobytes().hex()[:64] + format(zlib.crc32(st[1].tobytes()), "x") + repr(st[2:]),
        "python's global random state": format(zlib.crc32(repr(random.getstate()).encode()), "x"),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
    }


def changed(a, b):
    return [k for k in a if a[k] != b[k]]
