"""C08: weight updates are visible only whole, to observers and after interruption."""
import copy
import sys

import numpy as np

from ..core import Hang, Violation, call, chance, describe, pick, r6
from ..models import Guard
from ..sched import PREFIX, Scheduler, gen_switches, injected, make_exc, rare_step, trace_call
from ..world import MEMORYLESS, build, expand, gen_data, gen_filter, make_data

ID = "C08"
CASES = {"quick": 10000, "thorough": 250000}
LISTS = ["switches", "sweep", "faults", "ops"]
RULE = ("One run = one filter in training (run, adapt, pretrained_run) watched by an observer at every library line or "
        "bytecode, or read by 1-2 concurrent reader threads (weights and predictions) under a simulated schedule, or cut "
        "short by exceptions raised at chosen lines and resumed. Non-trivial: an observation or interruption happened "
        "inside a training call.")
REAL = ["padasip.filters (all 15 classes)", "numpy", "Python threads (one runnable at a time)"]
STUB = ["choice of the running thread", "asynchronous exceptions", "observer"]
ASSUME = ["one numpy operation on the weights is atomic with respect to other threads"]
COVER = "interleavings and interruption places (hash of switch places / filter, function and line of the fault)"


def gen(rng, tier, i):
    long = chance(rng, 0.06)
    rec = gen_data(rng, n=rng.randint(1, 6) if chance(rng, 0.9) else 20,
                   N=rng.randint(2, 14) if not long else rng.randint(33, 140))
    f = gen_filter(rng, rec, tame=True)
    f["via"] = "class"
    if isinstance(f["w"], dict):
        f["w"] = [r6(rng.gauss(0, 1)) for _ in range(rec["n"])]
    if f["k"] == "OCNLMS":
        f["p"]["mem"] = rng.randint(2, 8)
    ops, k, N = [], 0, rec["N"]
    while k < N:
        m = min(N - k, rng.randint(1, N)) if not (long and chance(rng, 0.6)) else N - k
        o = pick(rng, "run", "run", "adapt")
        if m >= 4 and chance(rng, 0.15):
            ops.append({"o": "pre", "ix": list(range(k, k + m)), "nt": 0.5, "ep": rng.randint(1, 2)})
        else:
            ops.append({"o": o, "ix": list(range(k, k + m))})
        k += m
    mode = pick(rng, "watch", "threads", "threads", "interrupt", "interrupt")
    if long:
        mode = pick(rng, mode, "watch", "interrupt")
    gran = pick(rng, "line", "line", "opcode") if mode != "interrupt" and not long else "line"
    case = {"data": rec, "f": f, "ops": ops, "mode": mode, "gran": gran}
    est = 9 * len(expand(ops)) * (8 if gran == "opcode" else 1)
    if mode == "threads":
        case["readers"] = [[pick(rng, "w", "p", "wp", "pp") for _ in range(rng.randint(1, 25))]
                           for _ in range(rng.randint(1, 2))]
        case["rs"] = rng.randrange(1 << 20)
        case["switches"] = gen_switches(rng, est, 60)
        case["first"] = rng.randrange(2)
    if mode == "interrupt" and chance(rng, 0.6 if long else 0.05):      # the same training cut at many different lines
        case["sweep"] = [-round(rng.random(), 6) for _ in range(rng.randint(3, 14))]
    if mode == "interrupt" or (mode == "threads" and gran == "line" and chance(rng, 0.3)):
        case["faults"] = [[rng.randint(1, est + 5) if chance(rng, 0.7) or mode != "interrupt" else -round(rng.random(), 6), pick(rng, "interrupt", "keyboard", "memory", "timeout")]
                          for _ in range(pick(rng, 1, 1, 2, 3))]
    return case


def reference(case, X, d):
    f = call("construct", build, case["f"])
    W = [np.array(f.w)]
    for op in case["ops"]:
        if op["o"] == "adapt":
            for i in op["ix"]:
                call("adapt", f.adapt, d[i], np.array(X[i]))
                W.append(np.array(f.w))
            continue
        parts = [op["ix"]]
        if op["o"] == "pre":
            m = int(len(op["ix"]) * op["nt"])
            parts = [op["ix"][:m]] * op["ep"] + [op["ix"][m:]]
        for ix in parts:
            _, _, rows = call("run", f.run, d[ix], X[ix])
            W.extend(np.array(r) for r in rows[1:])
            W.append(np.array(f.w))
    return W


class Tracker:
    """Assigns every observed weight vector a sample count that never goes back."""

    def __init__(self, W):
        self.W = np.array(W)
        self.tol = 1e-10 * np.maximum(1e-12, np.max(np.abs(self.W), axis=1, keepdims=True))
        self.cur = 0

    def matches(self, w):
        if w.shape != self.W.shape[1:]:
            return np.zeros(len(self.W), bool)
        with np.errstate(all="ignore"):
            return np.all((np.abs(self.W - w) <= self.tol) | (self.W == w), axis=1)

    def see(self, w, lo, hi, where):
        """An observation while the count must be in lo..hi."""
        w = np.array(w, dtype=float)
        ok = self.matches(w)
        span = range(max(lo, self.cur), min(hi, len(self.W) - 1) + 1)
        j = next((q for q in span if ok[q] and np.array_equal(self.W[q], w)), None)
        if j is None:
            j = next((q for q in span if ok[q]), None)
        if j is None:
            back = [int(q) for q in np.flatnonzero(ok)]
            kind = "went-back" if back and back[-1] < max(lo, self.cur) else "not-whole"
            raise Violation(kind, f"{where}: weights {describe(w)} (allowed: those after {max(lo, self.cur)}..{hi} "
                                  f"samples; they equal those after {back} samples); after {self.cur}: "
                                  f"{describe(self.W[self.cur])}")
        self.cur = j
        return j

    def upper(self, w, lo, hi):
        ok = self.matches(np.array(w, dtype=float))
        js = [q for q in range(lo, min(hi, len(self.W) - 1) + 1) if ok[q]]
        return js[-1] if js else hi


def train(f, case, X, d, enter):
    """The trainer; enter(lo, hi) announces the sample range of each call."""
    pos = 0
    for op in case["ops"]:
        ix = op["ix"]
        if op["o"] == "adapt":
            for i in ix:
                enter(pos, pos + 1)
                f.adapt(d[i], np.array(X[i]))
                pos += 1
                enter(pos, pos)
        else:
            L = len(expand([op]))
            enter(pos, pos + L)
            if op["o"] == "run":
                f.run(d[ix], X[ix])
            else:
                f.pretrained_run(d[ix], X[ix], ntrain=op["nt"], epochs=op["ep"])
            pos += L
            enter(pos, pos)


def run(case, ctx):
    X, d, _ = make_data(case["data"])
    if not case["ops"]:
        return
    W = reference(case, X, d)
    if not np.all(np.isfinite(W[-1])) or np.max(np.abs(W)) > 1e6 * (1 + np.max(np.abs(W[0]))):
        ctx.count("skipped_diverged")
        return
    f = call("construct", build, case["f"])
    tr = Tracker(W)
    rng_ = [0, 0]
    kind = case["f"]["k"]

    if case["mode"] == "watch":
        seen = [0]

        def local(frame, event, arg):
            if event in ("line", "opcode") and frame.f_lineno is not None:
                seen[0] += 1
                tr.see(f.w, rng_[0], rng_[1], f"at {frame.f_code.co_name}+"
                                              f"{frame.f_lineno - frame.f_code.co_firstlineno}")
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PREFIX):
                return None
            if case["gran"] == "opcode":
                frame.f_trace_opcodes = True
            return local

        def enter(lo, hi):
            rng_[:] = [lo, hi]
            tr.see(f.w, lo, hi, "between calls")
        v = []

        def safe_local(frame, event, arg):        # never raise from an opcode tracer
            if not v:
                try:
                    local(frame, event, arg)
                except Violation as ex:
                    v.append(ex)
            return safe_local

        def safe_tracer(frame, event, arg):
            return safe_local if tracer(frame, event, arg) else None
        sys.settrace(safe_tracer)
        try:
            guarded(train, f, case, X, d, enter)
        finally:
            sys.settrace(None)
        if v:
            raise v[0]
        ctx.count("observations", seen[0])
        ctx.nontrivial = seen[0] > 0
        ctx.mark("watch", kind, case["gran"], [(o["o"], len(o["ix"])) for o in case["ops"]])
        ctx.log(np.array(f.w))
        return

    if case["mode"] == "threads":
        threads(case, ctx, f, W, tr, X, d, rng_)
        return

    # interruptions and resumption, on one thread
    faults = list(case.get("faults", []))
    if not faults:
        return
    sweep = [[u, faults[0][1]] for u in case.get("sweep", [])]
    for k, first in enumerate([faults[0]] + sweep):
        g = f if not sweep else copy.deepcopy(f)
        cut_short(case, ctx, g, W, Tracker(W), X, d, [first] + (faults[1:] if k == 0 else []))


def cut_short(case, ctx, f, W, tr, X, d, faults):
    kind, rng_ = case["f"]["k"], [0, 0]
    seq = expand(case["ops"])
    # first: the planned call sequence, cut short by the first fault
    where = [None]
    steps = [0]

    def enter(lo, hi):
        rng_[:] = [lo, hi]
        tr.see(f.w, lo, hi, "between calls")
    step, name = faults.pop(0)
    if step < 0:                       # a line of the training, whichever it passes how often
        step = rare_step(trace_call(lambda: train(copy.deepcopy(f), case, X, d, lambda lo, hi: None))[2].places, min(-step, 0.999999))
    ex = interrupted(lambda: train(f, case, X, d, enter), step, name, where, steps)
    if ex is None:
        tr.see(f.w, rng_[0], rng_[1], "after training")
        ctx.count("fault_after_the_end")
        return
    if not injected(ex):
        # the library may convert the exception; the weights still have to be whole
        ctx.count("exception_converted")
    ctx.count("fault:" + name)
    ctx.nontrivial = True
    ctx.mark(kind, where[0], name)
    j = tr.see(f.w, rng_[0], rng_[1], f"after {name} at {where[0]}")
    ctx.log(where[0], np.array(f.w))
    if kind not in MEMORYLESS:
        # carried state may miss the interrupted sample, but the filter stays usable
        q = seq[j:] or seq
        y, e, rows = call("run-after-interrupt", f.run, d[q], X[q])
        if np.shape(y) != (len(q),) or np.shape(rows) != (len(q), case["f"]["n"]) or \
                np.shape(f.w) != (case["f"]["n"],):
            raise Violation("unusable-after-interrupt", f"shapes {np.shape(y)} {np.shape(rows)} {np.shape(f.w)}")
        call("predict-after-interrupt", f.predict, np.array(X[0]))
        ctx.count("used_after_interrupt")
        return
    while faults:
        step, name = faults.pop(0)
        rest = seq[j:]
        if not rest:
            break
        if step < 0:
            q = copy.deepcopy(f)
            step = rare_step(trace_call(lambda: q.run(d[rest], X[rest]))[2].places, min(-step, 0.999999))
        ex = interrupted(lambda: f.run(d[rest], X[rest]), step, name, where, steps)
        if ex is not None:
            ctx.count("fault:" + name)
            ctx.mark(kind, "again", where[0], name)
        j = tr.see(f.w, j, len(seq), f"after second {name} at {where[0]}")
        if ex is None:
            break
    g = Guard(case["f"], W[0], X, d, seq)
    rest = seq[j:]
    if rest:
        call("run-after-interrupt", f.run, d[rest], X[rest])
    if g.K == len(seq):
        tol = 4 * g.tw[len(seq)] + float(tr.tol[-1, 0])
        if not np.all(np.abs(np.asarray(f.w) - W[-1]) <= tol):
            raise Violation("resume", f"after interruption at {where[0]} and resuming from sample {j} the final weights "
                                      f"are {describe(f.w)}, uninterrupted {describe(W[-1])}")
        ctx.count("resumptions_compared")


def guarded(fn, *a):
    try:
        return fn(*a)
    except (Violation, Hang):
        raise
    except Exception as ex:  # noqa
        raise Violation("unexpected-exception:train", f"{type(ex).__name__}: {ex}")


def interrupted(fn, step, name, where, steps):
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == step:
                where[0] = f"{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}"
                raise make_exc(name)
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PREFIX) else None
    sys.settrace(tracer)
    try:
        fn()
        return None
    except (Violation, Hang):
        raise
    except BaseException as ex:  # noqa
        if where[0] is None:
            raise Violation("unexpected-exception:train", f"{type(ex).__name__}: {ex}")
        return ex
    finally:
        sys.settrace(None)


def threads(case, ctx, f, W, tr, X, d, rng_):
    kind = case["f"]["k"]
    n = case["f"]["n"]
    g = np.random.Generator(np.random.PCG64(case["rs"]))
    bad = []
    live = [True]
    holder = [None]

    def trainer():
        def enter(lo, hi):
            rng_[:] = [lo, hi]
            if not bad:
                try:
                    tr.see(f.w, lo, hi, "between calls")
                except Violation as v:
                    bad.append(v)
            holder[0].point()
        try:
            train(f, case, X, d, enter)
        except Hang:
            raise
        except BaseException as ex:  # noqa
            holder[0].arm()
            if not injected(ex) and not holder[0].tasks[0].fired:
                bad.append(Violation("unexpected-exception:train", f"{type(ex).__name__}: {ex}"))
        live[0] = False

    xs = [g.normal(0, 1, n) for _ in range(4)]

    def reader(acts, r):
        def fn():
            for q, a in enumerate(acts):
                for c in a:
                    if bad:
                        return
                    try:
                        if c == "w":
                            tr.see(f.w, rng_[0], rng_[1], f"reader {r} read {q}")
                            ctx.count("reads_during_training" if live[0] else "reads_after")
                        else:
                            x = xs[q % 4]
                            lo = tr.see(f.w, rng_[0], rng_[1], f"reader {r} before prediction {q}")
                            v = float(f.predict(x))
                            tr.see(f.w, rng_[0], rng_[1], f"reader {r} after prediction {q}")
                            if kind == "OCNLMS":
                                continue
                            hi = tr.upper(f.w, tr.cur, rng_[1])
                            cand = tr.W[lo:hi + 1] @ x
                            mag = float(np.max(np.abs(tr.W[lo:hi + 1]) @ np.abs(x)))
                            if not np.any(np.abs(cand - v) <= 1e-9 * mag + 1e-300):
                                raise Violation("torn-prediction", f"prediction {v!r}; the weights current during it give "
                                                                   f"{cand.tolist()} (after {lo}..{hi} samples)")
                            ctx.count("predictions_during_training" if live[0] else "predictions_after")
                    except Violation as ex:
                        bad.append(ex)
                        return
                    except Hang:
                        raise
                    except Exception as ex:  # noqa
                        bad.append(Violation("unexpected-exception:predict", f"{type(ex).__name__}: {ex}"))
                        return
                    holder[0].point()
        return fn

    fns = [trainer] + [reader(a, r) for r, a in enumerate(case["readers"])]
    s = Scheduler(fns, case["switches"], [[0, st, nm] for st, nm in case.get("faults", [])[:1]], case["gran"],
                  case["first"])
    holder[0] = s
    s.run()
    for t in s.tasks:
        for name, where in t.fired:
            ctx.count("fault:" + name)
    ctx.count("switches", s.nswitch)
    ctx.mark(s.interleaving())
    ctx.log(s.interleaving(), np.array(f.w))
    ctx.nontrivial = s.nswitch > 0
    if bad:
        raise bad[0]
    tr.see(f.w, rng_[0], rng_[1], "at the end")


def simplify(case):
    ops = case["ops"]
    for k, op in enumerate(ops):
        ix = op["ix"]
        if len(ix) > 1:
            for part in (ix[:len(ix) // 2], ix[len(ix) // 2:], ix[1:], ix[:-1]):
                if op["o"] == "pre" and len(part) < 2:
                    continue
                yield dict(case, ops=ops[:k] + [dict(op, ix=part)] + ops[k + 1:])
    for q, s in enumerate(case.get("switches", [])):
        if s[0] > 1:
            yield dict(case, switches=case["switches"][:q] + [[s[0] // 2, s[1]]] + case["switches"][q + 1:])
    for q, s in enumerate(case.get("faults", [])):
        for a in (s[0] // 2, s[0] - 1) if s[0] > 0 else ():
            if a >= 1:
                yield dict(case, faults=case["faults"][:q] + [[a, s[1]]] + case["faults"][q + 1:])
    for q, r in enumerate(case.get("readers", [])):
        if len(r) > 1:
            yield dict(case, readers=case["readers"][:q] + [r[:len(r) // 2]] + case["readers"][q + 1:])
            yield dict(case, readers=case["readers"][:q] + [r[1:]] + case["readers"][q + 1:])
