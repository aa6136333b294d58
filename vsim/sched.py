"""Deterministic thread scheduler and fault injector.

Real threads run the real library, but exactly one holds the baton at any time.
Every line (or bytecode instruction) executed in a frame of the library is a
yield point, reached through sys.settrace; there the schedule of the case decides
whether the baton moves and to whom, and whether an exception (Ctrl-C, timeout,
failed allocation) strikes.  Nothing else decides: no sleeps, no timeouts, no OS
scheduling.  The same case therefore executes the same interleaving every time."""
import asyncio
import hashlib
import os
import sys
import threading
import types

import numpy as np

from .core import REPO, Hang, HarnessError, SimInterrupt

PREFIX = os.path.join(REPO, "padasip") + os.sep
EXC = {"interrupt": SimInterrupt, "keyboard": KeyboardInterrupt, "memory": MemoryError, "timeout": TimeoutError,
       "runtime": RuntimeError, "exit": SystemExit, "cancelled": asyncio.CancelledError, "io": OSError}
STEP_LIMIT = 3_000_000
CURRENT = None          # the scheduler that owns the baton, if any


class Injected:
    """Marks exceptions made by the simulator."""


def make_exc(name):
    ex = EXC[name]("injected by the simulator")
    ex.vsim_injected = True
    return ex


def injected(ex):
    return getattr(ex, "vsim_injected", False)


class _Task:
    def __init__(self, tid, fn, faults):
        self.tid, self.fn = tid, fn
        self.sem = threading.Semaphore(0)
        self.faults = sorted(faults)            # [step, name]
        self.steps = 0
        self.done = False
        self.error = None
        self.fired = []
        self.where = ""


class Scheduler:
    """fns: callables, one per thread.  switches: [[gap, pick], ...].  faults:
    [[tid, step, name], ...].  gran: 'line' or 'opcode'."""

    def __init__(self, fns, switches, faults=(), gran="line", first=0):
        self.tasks = [_Task(i, fn, [[s, n] for t, s, n in faults if t == i]) for i, fn in enumerate(fns)]
        self.switches = [list(s) for s in switches]
        self.gran = gran
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else None
        self.total = 0
        self.nswitch = 0
        self.first = first % len(self.tasks)
        self.main = threading.Semaphore(0)
        self._h = hashlib.blake2b(digest_size=8)
        self.clock = 0          # global event sequence number
        self.by_thread = {}
        self.aborted = None

    # ---- public
    def run(self):
        global CURRENT
        if CURRENT is not None:
            raise HarnessError("nested scheduler")
        CURRENT = self
        threads = []
        try:
            for t in self.tasks:
                th = threading.Thread(target=self._thread, args=(t,), daemon=True)
                threads.append(th)
                th.start()
            self.tasks[self.first].sem.release()
            self.main.acquire()
            for th in threads:
                th.join()
        finally:
            CURRENT = None
        if self.aborted:
            raise Hang(self.aborted)
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        return self

    def interleaving(self):
        return self._h.hexdigest()

    def now(self):
        """Global event number: a total order over everything that happens."""
        self.clock += 1
        return self.clock

    def me(self):
        return self.by_thread[threading.get_ident()]

    def point(self):
        """An explicit yield point in the driver code of a task."""
        t = self.by_thread.get(threading.get_ident())
        if t is not None:
            self._yield(t, "driver", faultable=False)

    def arm(self):
        """(Re-)enable tracing for this thread, e.g. after an injected fault."""
        sys.settrace(self._tracer)

    # ---- internals
    def _thread(self, t):
        self.by_thread[threading.get_ident()] = t
        t.sem.acquire()
        try:
            np.seterr(all="ignore")
            if not self.aborted:
                sys.settrace(self._tracer)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except BaseException as ex:  # noqa
            if isinstance(ex, Hang):
                self.aborted = self.aborted or str(ex)
            else:
                t.error = ex
        t.done = True
        nxt = next((u for u in self.tasks if not u.done), None)
        if nxt is None:
            self.main.release()
        else:
            self._h.update(b"end%d>%d" % (t.tid, nxt.tid))
            nxt.sem.release()

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            if self.gran == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            t = self.by_thread[threading.get_ident()]
            self._yield(t, frame)
        return self._local

    def _yield(self, t, frame, faultable=True):
        if faultable and frame.f_lineno is None:
            return              # an instruction of no source line (start of a closure): nothing of the library's
        if self.aborted:
            raise Hang(self.aborted)
        t.steps += 1 if faultable else 0
        self.total += 1
        if self.total > STEP_LIMIT:
            self.aborted = f"no progress after {STEP_LIMIT} steps"
            raise Hang(self.aborted)
        if faultable and t.faults and t.steps >= t.faults[0][0]:
            _, name = t.faults.pop(0)
            where = f"{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}"
            t.fired.append((name, where))
            self._h.update(f"!{t.tid}{name}{where}".encode())
            raise make_exc(name)
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        pick = self.switches[self.pos][1]
        self.pos += 1
        self.left = max(1, self.switches[self.pos][0]) if self.pos < len(self.switches) else None
        others = [u for u in self.tasks if not u.done and u is not t]
        if not others:
            return
        u = others[pick % len(others)]
        self._switch(t, u, frame)

    def _switch(self, t, u, frame):
        self.nswitch += 1
        if isinstance(frame, str):
            w = frame
        else:
            w = f"{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}.{frame.f_lasti}"
        self._h.update(f"{t.tid}@{w}>{u.tid}".encode())
        u.sem.release()
        t.sem.acquire()
        if self.aborted:
            raise Hang(self.aborted)

    def blocked(self):
        """Called by a simulated lock that is held: let somebody else run."""
        t = self.me()
        others = [u for u in self.tasks if not u.done and u is not t]
        self.total += 50
        if not others or self.total > STEP_LIMIT:
            self.aborted = "deadlock: every thread waits for a lock"
            raise Hang(self.aborted)
        nxt = others[(self.nswitch + t.tid) % len(others)]
        self._switch(t, nxt, "lock")


class Steps(int):
    """A number of yield points, with the place of each."""
    places = ()


def rare_step(places, u):
    """The step at which a place is reached, every place being as likely as any
    other however often the call passes it; u in [0, 1)."""
    if not places:
        return 1
    when = {}
    for k, p in enumerate(places):
        when.setdefault(p, []).append(k + 1)
    order = sorted(when.values(), key=lambda v: (len(v), v[0]))
    v, u = order[int(u * len(order))], u * len(order) % 1.0
    return v[int(u * len(v))]


def trace_call(fn, fault=None, gran="line"):
    """Run fn() on this thread with a fault (step, name) raised at the step-th
    yield point inside the library.  Returns (result, exception or None, steps,
    place of the fault or None)."""
    st = {"n": 0, "where": None}
    places = []

    def total():
        n = Steps(st["n"])
        n.places = places
        return n

    def local(frame, event, arg):
        if (event == "line" or event == "opcode") and frame.f_lineno is not None:
            st["n"] += 1
            if st["n"] > STEP_LIMIT:
                raise Hang("no progress")
            if fault is None:
                places.append((frame.f_code.co_name, frame.f_code.co_firstlineno, frame.f_lineno))
            if fault is not None and st["n"] == fault[0]:
                st["where"] = f"{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}"
                raise make_exc(fault[1])
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            if gran == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = fn()
        return r, None, total(), st["where"]
    except Hang:
        raise
    except BaseException as ex:  # noqa
        return None, ex, total(), st["where"]
    finally:
        sys.settrace(old)


class SimLock:
    """Stands in for threading.Lock/RLock inside the library, so that a library
    that locks still runs under the scheduler's control."""

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and self.owner != me:
            if not blocking or timeout >= 0:
                return False
            if CURRENT is None:
                raise Hang("deadlock: lock is held by a thread that is gone")
            CURRENT.blocked()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def seam_locks():
    """Route locks used by library modules (if any) through SimLock."""
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "padasip" or name.startswith("padasip.")):
            continue
        for k, v in list(vars(mod).items()):
            if v is threading:
                proxy = types.ModuleType("threading")
                proxy.__dict__.update({a: b for a, b in vars(threading).items() if not a.startswith("__")})
                proxy.Lock = proxy.RLock = SimLock
                setattr(mod, k, proxy)
            elif v is threading.Lock or v is threading.RLock:
                setattr(mod, k, SimLock)
            elif type(v) in (type(threading.Lock()), type(threading.RLock())):
                setattr(mod, k, SimLock())


def gen_switches(rng, fns_steps, nmax=40):
    """A random preemption list for runs of roughly fns_steps yield points."""
    style = rng.random()
    total = max(4, fns_steps)
    if style < 0.1:                        # lockstep through everything
        k, a = min(total * 2, 500), rng.randint(1, 2)
        return [[rng.randint(1, a), rng.randrange(8)] for _ in range(k)]
    if style < 0.3:                       # few, well spread (PCT-like)
        k = rng.randint(1, 4)
        cuts = sorted(rng.randrange(1, total) for _ in range(k))
        return [[max(1, b - a), rng.randrange(8)] for a, b in zip([0] + cuts, cuts)]
    if style < 0.5:                        # burst of fine-grained switching somewhere
        k = rng.randint(4, nmax)
        return [[rng.randrange(1, max(2, total // 2)), rng.randrange(8)]] + \
               [[rng.randint(1, 3), rng.randrange(8)] for _ in range(k)]
    if style < 0.75:
        k = rng.randint(4, nmax)
        return [[rng.randint(1, max(2, 2 * total // k)), rng.randrange(8)] for _ in range(k)]
    k = rng.randint(2, nmax)               # heavy tailed
    return [[int(rng.paretovariate(0.8)) % total + 1, rng.randrange(8)] for _ in range(k)]


def prime():
    """CPython delivers opcode events only to trace functions installed after
    some frame first asked for them; ask once at start so that the first run of a
    process behaves like all later ones."""
    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return tr

    def dummy():
        return None
    sys.settrace(tr)
    dummy()
    sys.settrace(None)
    sys.settrace(tr)
    dummy()
    sys.settrace(None)
