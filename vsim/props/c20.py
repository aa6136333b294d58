"""C20: a cancellation reaches the caller, and no failure is taken for success."""
import copy
import sys

import numpy as np

from ..core import Hang, HarnessError, Violation, chance, describe, fresh_lib, pick, same
from ..programs import Program, build_mlp, call_args, flat, fn_of, gen_call, gen_mlp, gen_program, mlp_data, mlp_weights
from ..sched import make_exc, rare_step, trace_call
from ..world import CLASSES, gen_data, gen_filter, make_data

ID = "C20"
CASES = {"quick": 12000, "thorough": 400000}
LISTS = ["faults"]
RULE = ("One run = a client program (filter session, network session, stateless calls, construction, import of the library) in "
        "which exceptions strike chosen calls: cancellations (Ctrl-C, SystemExit, CancelledError, a BaseException of the "
        "application) and failures (memory, time-out, I/O) raised at a chosen line inside the library, or by a lazily read "
        "data source (file, socket, sensor) at its k-th access. Non-trivial: at least one injected exception was raised inside "
        "a library call.")
REAL = ["the whole of padasip", "numpy", "scipy.stats (ESE)"]
STUB = ["lazily read data source whose reads fail or are cancelled", "the client"]
ASSUME = ["exceptions strike between lines of the library or inside the data source; an exception that numpy itself does not hand "
          "on (decided by giving the same failing source to numpy.array) is not counted",
          "a failure that is not a cancellation may be reported as another exception, as the documented ValueError is"]
COVER = "faults (operation, exception, line of the library or access of the source)"

CANCEL = ["keyboard", "keyboard", "exit", "interrupt", "cancelled"]
FAIL = ["memory", "timeout", "io", "runtime"]


def gen(rng, tier, i):
    t = pick(rng, "session", "session", "session", "source", "source", "construct", "import")
    if t == "import" and chance(rng, 0.7):
        t = "session"
    exc = (lambda: pick(rng, *CANCEL) if chance(rng, 0.7) else pick(rng, *FAIL))
    if t == "session":
        p = gen_program(rng, pick(rng, "filter", "filter", "fn", "fn", "mlp"), maxN=pick(rng, 6, 14, 30) if chance(rng, 0.96) else 130)
        if p["t"] == "fn" and chance(rng, 0.04):
            p["ops"].append(gen_call(rng, "ESE"))
        if p["t"] == "filter" and chance(rng, 0.3):
            ix = sorted(rng.randrange(p["data"]["N"]) for _ in range(6))
            p["ops"].append({"o": "pre", "ix": ix, "nt": 0.5, "ep": rng.randint(1, 2)})
        faults = [[rng.randrange(len(p["ops"])), r(rng), exc()] for _ in range(rng.randint(1, 4))]
        return {"t": t, "p": p, "faults": faults}
    if t == "construct":
        what = pick(rng, "filter", "filter", "mlp", "get")
        c = {"t": t, "what": what, "faults": [[0, r(rng), exc()] for _ in range(rng.randint(1, 3))]}
        if what == "mlp":
            c["m"] = gen_mlp(rng)
        else:
            rec = gen_data(rng, n=rng.randint(1, 6), N=4)
            c["f"] = gen_filter(rng, rec, tame=True)
        return c
    if t == "import":
        return {"t": t, "faults": [[0, r(rng), exc()] for _ in range(rng.randint(1, 2))]}
    # data that is read when it is used
    what = pick(rng, "run", "run", "adapt", "predict", "pre", "w", "fn", "fn", "fn", "train", "test", "mrun", "mpredict", "filter_data")
    c = {"t": t, "what": what, "faults": [[0, r(rng), exc()] for _ in range(rng.randint(1, 3))], "arg": rng.randrange(4),
         "src": pick(rng, "array", "array", "cells")}
    if what in ("train", "test", "mrun", "mpredict"):
        c["m"] = gen_mlp(rng)
    elif what == "fn":
        c["c"] = gen_call(rng, pick(rng, "learning_entropy", "ELBND", "standardize", "standardize_back", "input_from_history",
                                    "PCA", "LDA", "MAE", "MSE", "RMSE", "logSE", "get_mean_error"))
    else:
        rec = gen_data(rng, n=rng.randint(1, 4), N=rng.randint(2, 8))
        c["data"], c["f"] = rec, gen_filter(rng, rec, tame=True)
        if isinstance(c["f"]["w"], dict):
            c["f"]["w"] = "zeros"
        if what == "w":
            c["f"]["w"] = [1.0] * rec["n"]
    return c


def r(rng):
    u = rng.random()
    return rng.randint(1, 12) if u < 0.15 else -round(rng.random(), 6) if u < 0.45 else round(rng.random(), 6)


def place(frac, steps):
    """A fault place is a fraction of the steps of the call, a step number, or
    (negative) a choice among the lines the call passes, however often."""
    if frac < 0 and getattr(steps, "places", None):
        return rare_step(steps.places, min(-frac, 0.999999))
    frac = abs(frac)
    return int(frac) if frac >= 1 else 1 + int(frac * max(1, steps))


# ------------------------------------------------------------------ judgement
def judge(what, name, ex, result, expected, where, ctx):
    """What became of one injected exception."""
    cancel = name in CANCEL
    ctx.count("fault:" + name)
    if ex is None:
        if cancel:
            raise Violation("cancellation-swallowed", f"{what}: {name} raised at {where} never reached the caller")
        if expected is not None and not (len(result) == len(expected) and
                                         all(same(a, b, rtol=1e-8) for a, b in zip(result, expected))):
            raise Violation("failure-taken-for-success", f"{what}: {name} raised at {where} was swallowed and the call returned "
                                                         f"{[describe(v) for v in result][:3]} instead of "
                                                         f"{[describe(v) for v in expected][:3]}")
        ctx.count("failures_survived")
        return
    if isinstance(ex, Violation):
        raise ex
    if cancel and not getattr(ex, "vsim_injected", False):
        raise Violation("cancellation-replaced", f"{what}: {name} raised at {where} reached the caller as "
                                                 f"{type(ex).__name__}: {ex}")
    ctx.count("cancellations_delivered" if cancel else "failures_delivered")


class Unraisable:
    """Collects exceptions the interpreter itself had to drop (finalizers)."""

    def __enter__(self):
        self.seen = []
        self.old = sys.unraisablehook
        sys.unraisablehook = lambda a: self.seen.append(a.exc_value)
        return self

    def __exit__(self, *a):
        sys.unraisablehook = self.old
        return False


def strike(fn, frac, name, steps, what, expected, ctx):
    """fn() with the fault; fn returns a list of arrays."""
    with Unraisable() as u:
        res, ex, n, where = trace_call(fn, fault=(place(frac, steps), name))
    if isinstance(ex, (HarnessError, Hang)):
        raise ex
    if where is None:
        ctx.count("faults_not_reached")
        return res, ex, None
    if any(getattr(v, "vsim_injected", False) for v in u.seen):
        ctx.count("fault_in_finalizer")
        return res, ex, where
    ctx.mark(what, name, where)
    judge(what, name, ex, res, expected, where, ctx)
    return res, ex, where


# ------------------------------------------------------------------ sessions
def op_name(rec, op):
    if rec["t"] == "filter":
        return rec["f"]["k"] + "." + op["o"]
    if rec["t"] == "mlp":
        return "mlp." + op[0]
    return op["fn"]


def do_op(p, j):
    op = p.rec["ops"][j]
    if p.rec["t"] == "filter" and op["o"] == "pre":
        ix = op["ix"]
        return flat(p.f.pretrained_run(p.d[ix], p.X[ix], ntrain=op["nt"], epochs=op["ep"])) + [np.array(p.f.w)]
    return p._do(op)


def session(case, ctx):
    rec = case["p"]
    p = Program(rec)
    todo = {}
    for j, frac, name in case["faults"]:
        todo.setdefault(j, []).append((frac, name))
    hit = 0
    for j in range(len(rec["ops"])):
        what = op_name(rec, rec["ops"][j])
        if j not in todo:
            try:
                do_op(p, j)
            except Exception:  # noqa   (a sample without a target)
                pass
            continue
        for frac, name in todo[j]:
            q = copy.deepcopy(p) if rec["t"] != "fn" else p
            ref, rex, steps, _ = trace_call(lambda: do_op(q, j))
            if isinstance(rex, (HarnessError, Hang, Violation)):
                raise rex
            before = [np.array(v) for v in p.state()]
            res, ex, where = strike(lambda: do_op(p, j), frac, name, steps, what, ref if rex is None else None, ctx)
            hit += where is not None
            if rec["t"] == "fn" and where is not None and rex is None:
                # the same call again gives what it always gives
                again, aex, _, _ = trace_call(lambda: do_op(p, j))
                if aex is not None or not all(same(a, b, rtol=1e-8) for a, b in zip(again, ref)):
                    raise Violation("repeat-after-cancel", f"{what} after {name} at {where}: "
                                                           f"{aex if aex is not None else describe(again[0])}, normally {describe(ref[0])}")
            if any(not np.all(np.isfinite(v)) for v in p.state()) and all(np.all(np.isfinite(v)) for v in before):
                break
        ctx.log(*[np.array(v) for v in p.state()])
    ctx.nontrivial = hit > 0


def construct(case, ctx):
    from ..world import build

    def fn():
        if case["what"] == "mlp":
            return mlp_weights(build_mlp(case["m"]))
        if case["what"] == "get":
            f = build(dict(case["f"], via="get"))
        else:
            f = build(case["f"])
        return [np.array(f.w)]
    ref, rex, steps, _ = trace_call(fn)
    if rex is not None:
        raise Violation("unexpected-exception:construct", f"{type(rex).__name__}: {rex}")
    hit = 0
    for _, frac, name in case["faults"]:
        hit += strike(fn, frac, name, steps, "construct " + case["what"], ref, ctx)[2] is not None
        again = trace_call(fn)
        if again[1] is not None or not all(same(a, b) for a, b in zip(again[0], ref)):
            raise Violation("repeat-after-cancel", f"construction after {name}: {again[1] or describe(again[0][0])}")
    ctx.log(*ref)
    ctx.nontrivial = hit > 0


def imports(case, ctx):
    _, _, steps, _ = trace_call(fresh_lib)
    hit = 0
    for _, frac, name in case["faults"]:
        if name not in CANCEL:
            name = "keyboard"
        hit += strike(lambda: [len(fresh_lib().__name__)], frac, name, steps, "import padasip", None, ctx)[2] is not None
        fresh_lib()
    ctx.nontrivial = hit > 0


# ------------------------------------------------------------------ lazily read data
class Disk:
    """Counts accesses and fails at the chosen one."""

    def __init__(self, at=None, name=None):
        self.n, self.at, self.name = 0, at, name
        self.raised = None

    def access(self):
        self.n += 1
        if self.n == self.at:
            self.raised = make_exc(self.name)
            raise self.raised


class Lazy:
    """Array data behind reads that can fail."""

    def __init__(self, v, disk):
        self.v, self.disk = v, disk

    def __len__(self):
        self.disk.access()
        return len(self.v)

    def __getitem__(self, k):
        self.disk.access()
        q = self.v[k]
        return np.array(q) if isinstance(q, np.ndarray) else q

    def __iter__(self):
        for k in range(len(self.v)):
            yield self[k]

    def __array__(self, dtype=None, copy=None):
        self.disk.access()
        return np.array(self.v, dtype=dtype)

    @property
    def shape(self):
        return self.v.shape

    @property
    def ndim(self):
        return self.v.ndim

    @property
    def T(self):
        return Lazy(self.v.T, self.disk)


class Cell:
    """A reading that is fetched when its value is needed."""

    def __init__(self, v, disk):
        self.v, self.disk = float(v), disk

    def __float__(self):
        self.disk.access()
        return self.v


CELLS = ("standardize", "standardize_back", "input_from_history", "MAE", "MSE", "RMSE", "logSE", "get_mean_error")


def source(case, ctx):
    what = case["what"]
    fname = case["c"]["fn"] if what == "fn" else what
    cells = case["src"] == "cells" and (what == "w" or fname in CELLS)

    def lazy(v, disk):
        if cells:
            return [Cell(q, disk) for q in v] if v.ndim == 1 else v
        return Lazy(v, disk)

    def choose(args, disk):
        """One of the array arguments (or all) becomes lazy."""
        ix = [k for k, v in enumerate(args) if isinstance(v, np.ndarray) and v.dtype.kind == "f"]
        if not ix:
            return args
        sel = ix if case["arg"] == 3 else [ix[case["arg"] % len(ix)]]
        return [lazy(v, disk) if k in sel else v for k, v in enumerate(args)]

    def fn(disk):
        import padasip as pa
        if what in ("train", "test", "mrun", "mpredict"):
            X, D = mlp_data(case["m"])
            net = build_mlp(case["m"])
            if what == "mpredict":
                return flat(net.predict(*choose([X[0]], disk)))
            a = choose([X, D] if what != "mrun" else [X], disk)
            if what == "train":
                return flat(net.train(*a, epochs=1)) + mlp_weights(net)
            return flat(net.test(*a) if what == "test" else net.run(*a))
        if what == "fn":
            a, kw = call_args(case["c"])
            return flat(fn_of(fname)(*choose(a, disk), **kw))
        X, d, _ = make_data(case["data"])
        spec = case["f"]
        w = np.array(spec["w"]) if isinstance(spec["w"], list) else spec["w"]
        if what == "w":
            f = getattr(pa.filters, CLASSES[spec["k"]])(spec["n"], w=choose([w], disk)[0], **spec["p"])
            return [np.array(f.w)]
        if what == "filter_data":
            a = choose([d, X], disk)
            return flat(pa.filters.filter_data(a[0], a[1], model=spec["k"], w=w, **spec["p"]))
        f = getattr(pa.filters, CLASSES[spec["k"]])(spec["n"], w=w, **spec["p"])
        if what == "predict":
            return [np.array(f.predict(*choose([X[0]], disk)))]
        if what == "adapt":
            for k in range(len(X)):
                f.adapt(d[k], *choose([X[k]], disk))
            return [np.array(f.w)]
        a = choose([d, X], disk)
        r = f.run(*a) if what == "run" else f.pretrained_run(*a, ntrain=0.5, epochs=2)
        return flat(r) + [np.array(f.w)]

    disk = Disk()
    try:
        ref = fn(disk)
    except Exception:  # noqa   (this call does not take lazy data)
        ctx.count("source_not_accepted")
        ctx.log("no")
        return
    total = disk.n
    hit = 0
    for _, frac, name in case["faults"]:
        if total == 0:
            break
        disk = Disk(place(frac, total), name)
        res, ex = None, None
        try:
            res = fn(disk)
        except (Hang, HarnessError):
            raise
        except BaseException as e:  # noqa
            ex = e
        if disk.raised is None:
            ctx.count("faults_not_reached")
            continue
        hit += 1
        ctx.mark("source", fname, name, case["src"], min(disk.at, 40))
        ctx.count("source_" + fname)
        judge(f"{fname} reading lazy data", name, ex, res, ref, f"access {disk.at} of {total}", ctx)
    ctx.log(*ref)
    ctx.nontrivial = hit > 0


def run(case, ctx):
    {"session": session, "construct": construct, "import": imports, "source": source}[case["t"]](case, ctx)


def simplify(case):
    if case["t"] == "session":
        p = case["p"]
        for k in range(len(p["ops"]) - 1, -1, -1):
            if all(f[0] != k for f in case["faults"]):
                yield dict(case, p=dict(p, ops=p["ops"][:k] + p["ops"][k + 1:]),
                           faults=[[f[0] - (f[0] > k)] + f[1:] for f in case["faults"]])
    for k, f in enumerate(case["faults"]):
        for name in ("keyboard", "memory"):
            if f[2] != name and (f[2] in CANCEL) == (name in CANCEL):
                yield dict(case, faults=case["faults"][:k] + [[f[0], f[1], name]] + case["faults"][k + 1:])
