"""C22: memory and work per sample stay bounded, and dropped objects are freed."""
import copy
import gc
import sys
import tracemalloc
import weakref

import numpy as np

from ..core import Hang, HarnessError, Violation, call, chance, lib, pick
from ..programs import build_mlp, call_args, fn_of, gen_call, gen_mlp
from ..sched import trace_call
from ..world import build, gen_data, gen_filter, make_data

ID = "C22"
CASES = {"quick": 1100, "thorough": 40000}
LISTS = ["cycle"]
BAD = {"none": lambda f, d, X: f.adapt(None, X[0]),
       "text": lambda f, d, X: f.adapt("x", X[0]),
       "long": lambda f, d, X: f.adapt(d[0], np.append(X[0], 1.)),
       "long-predict": lambda f, d, X: f.predict(np.append(X[0], 1.)),
       "list": lambda f, d, X: f.adapt(d[0], [None] * X.shape[1]),
       "run-none": lambda f, d, X: f.run([d[0], None], X),
       "run-length": lambda f, d, X: f.run(d[:1], X),
       "run-width": lambda f, d, X: f.run(d, np.hstack((X, X))),
       "run-flat": lambda f, d, X: f.run(d, d),
       "run-empty": lambda f, d, X: f.run(d[:0], X[:0]),
       "run-text": lambda f, d, X: f.run(d, [["a"] * X.shape[1]] * 2),
       "pre-length": lambda f, d, X: f.pretrained_run(d[:1], X),
       "pre-width": lambda f, d, X: f.pretrained_run(d, np.hstack((X, X))),
       "weights": lambda f, d, X: f.init_weights("unknown"),
       "weights-length": lambda f, d, X: f.init_weights(list(np.append(X[0], 1.)), X.shape[1])}
RULE = ("One run = a long-lived client that repeats a random cycle of operations (samples, predictions, short runs, training, "
        "stateless calls, new objects, copies, failing and cancelled calls) on data that never repeat; traced memory is compared "
        "at the ends of four equal periods, the executed library lines of every operation early and late in the history, and "
        "the peak memory of a run over N and 2N samples. Non-trivial: at least 200 operations.")
REAL = ["the whole of padasip", "numpy"]
STUB = ["data source", "the client", "allocation tracing of the interpreter (tracemalloc), trace function"]
ASSUME = ["memory may grow while bounded caches fill: only growth in each of the last three periods counts",
          "work is measured in executed lines of the library"]
COVER = "cycles (object, operation kinds)"


def gen(rng, tier, i):
    t = pick(rng, "filter", "filter", "filter", "filter", "mlp", "fn", "objects", "peak", "peak", "peak") if chance(rng, 0.93) else "lengths"
    case = {"t": t, "s": rng.randrange(1 << 30), "K": pick(rng, 40, 60, 100)}
    if t in ("filter", "objects", "peak", "lengths"):
        rec = gen_data(rng, n=rng.randint(1, 6) if t == "lengths" or chance(rng, 0.9) else 17, N=24)
        f = gen_filter(rng, rec, tame=True, kinds=["AP"] if chance(rng, 0.12) else None)    # the one with loops of its own
        if f["k"] == "OCNLMS":
            f["p"]["mem"] = pick(rng, 2, 3, 5, 10, 20, 40)
        if isinstance(f["w"], dict):
            f["w"] = "zeros"
        case.update(data=rec, f=f)
        if t == "filter":
            case["cycle"] = [pick(rng, ["adapt"], ["adapt"], ["adapt"], ["rt"], ["rt"], ["pred", rng.randint(1, 3)],
                                  ["run", rng.randint(1, 6)], ["pre", rng.randint(2, 6)], ["bad"] + rng.sample(list(BAD), rng.randint(1, 5) if chance(rng, 0.6) else len(BAD)),
                                  ["zero"], ["same"], ["copy"], ["cancel", rng.randint(1, 20)]) for _ in range(rng.randint(1, 5))]
        if t == "objects":
            case["use"] = [pick(rng, "adapt", "run", "pred", "bad", "copy") for _ in range(rng.randint(0, 3))]
            case["mlp"] = gen_mlp(rng) if chance(rng, 0.3) else None
        if t == "peak":
            case["fn"] = pick(rng, "run", "run", "pre", "data", "learning_entropy", "ELBND", "input_from_history", "PCA", "PCAn", "LDA", "LDAn",
                              "RMSE", "logSE", "MAE", "MSE", "standardize", "standardize_back", "ESE", "train", "mrun", "mtest")
            case["N"] = pick(rng, 600, 1000)
        if t == "lengths":
            case["fn"] = pick(rng, "run", "run", "run", "run", "pre", "data", "train", "train", "mrun", "mtest", "learning_entropy", "ELBND",
                              "input_from_history", "PCA", "LDA", "RMSE", "logSE", "MAE", "MSE", "standardize", "standardize_back")
            case["K"] = 20
    elif t == "mlp":
        case["m"] = gen_mlp(rng)
        case["cycle"] = [pick(rng, ["pu"], ["pu"], ["predict"], ["train", rng.randint(1, 3)], ["run"], ["test"], ["bad", pick(rng, "train", "predict", "update", "run", "test")], ["copy"])
                         for _ in range(rng.randint(1, 4))]
    else:
        case["cycle"] = [gen_call(rng, ese=0) if chance(rng, 0.85) else gen_call(rng, "invalid") for _ in range(rng.randint(1, 3))]
        for c in case["cycle"]:
            c["N"] = min(c.get("N", 0), 24) if "window" not in c else c["N"]
            if c["fn"] == "learning_entropy":
                c["m"] = min(c["m"], 12)
            if c["fn"] == "input_from_history":
                c["n"] = min(c["n"], 8)
            if c["fn"].startswith(("PCA", "LDA")):
                c["N"], c["n"], c["k"] = max(c["N"], 18), min(c["n"], 5), 1
    return case


class Source:
    """Samples that never repeat."""

    def __init__(self, case):
        self.g = np.random.Generator(np.random.PCG64(case["s"]))
        self.n = case["f"]["n"]
        self.scale = case["data"]["scale"]
        self.wt = self.g.normal(0, 1, self.n)

    def take(self, k=1):
        X = self.g.normal(0, self.scale, (k, self.n))
        return X, X @ self.wt + 0.01 * self.scale * self.g.normal(0, 1, k)


def sample_op(f, op, src):
    o = op[0]
    if o == "run":
        X, d = src.take(op[1])
        f.run(d, X)
    elif o == "pre":
        X, d = src.take(op[1])
        f.pretrained_run(d, X, ntrain=0.5, epochs=2)
    elif o == "zero":
        f.adapt(0.0, np.zeros(src.n))
    elif o == "same":
        X, d = src.take()
        f.adapt(float(np.dot(f.w, X[0])), X[0])
    elif o == "copy":
        copy.deepcopy(f)
    elif o == "bad":
        X, d = src.take(2)
        for kind in op[1:]:
            try:
                BAD[kind](f, d, X)
            except Exception:  # noqa
                pass
    elif o == "cancel":
        X, d = src.take()
        _, ex, _, _ = trace_call(lambda: f.adapt(d[0], X[0]), fault=(op[1], "keyboard"))
        if isinstance(ex, (Hang, HarnessError)):
            raise ex
        del ex
    else:
        X, d = src.take()
        if o in ("pred", "rt"):
            for _ in range(op[1] if o == "pred" else 1):
                f.predict(X[0])
        if o in ("adapt", "rt"):
            f.adapt(d[0], X[0])


def net_op(net, op, m, g):
    X = g.normal(0, 1, (m["N"], m["nin"]))
    D = g.uniform(-1, 1, (m["N"], m["out"]) if m["out"] > 1 else m["N"])
    o = op[0]
    if o == "train":
        net.train(X, D, epochs=op[1])
    elif o == "run":
        net.run(X)
    elif o == "test":
        net.test(X, D)
    elif o == "copy":
        copy.deepcopy(net)
    elif o == "bad":
        try:
            if op[1] == "train":
                net.train(X[:, :-1], D)
            elif op[1] == "predict":
                net.predict(np.append(X[0], 1.))
            elif op[1] == "update":
                net.update(np.ones(m["out"] + 2))
            elif op[1] == "run":
                net.run([None] * 3)
            else:
                net.test(X, D[:-1])
        except Exception:  # noqa
            pass
    else:
        net.predict(X[0])
        if o == "pu":
            net.update(D[0])


# ------------------------------------------------------------------ measuring
def settle():
    sys._clear_type_cache()     # numpy looks attributes up by fresh strings, which the interpreter's method cache keeps
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def periods(cycle_once, K, warm, what, ctx, unit=1):
    """Run `warm` cycles, then four periods of K cycles; memory may not grow in all
    of the last three."""
    for _ in range(warm):
        cycle_once()
    gc.collect()
    tracemalloc.start()
    try:
        for _ in range(K):
            cycle_once()
        at = [settle()]
        for _ in range(3):
            for _ in range(K):
                cycle_once()
            at.append(settle())
    finally:
        tracemalloc.stop()
    g = [b - a for a, b in zip(at, at[1:])]
    ctx.count("cycles", warm + 4 * K)
    if min(g) > 4 * K * unit + 64:
        raise Violation("memory-grows", f"{what}: {g} bytes in three consecutive periods of {K} cycles (after {warm + K})")


def lines(fn):
    _, ex, n, _ = trace_call(fn)
    if isinstance(ex, (Hang, HarnessError)):
        raise ex
    return n


def filt(case, ctx):
    f = call("construct", build, case["f"])
    src = Source(case)
    cyc = case["cycle"]

    def once():
        for op in cyc:
            sample_op(f, op, src)

    def work():
        return [lines(lambda: sample_op(f, op, src)) for op in cyc if op[0] != "cancel"]
    for _ in range(5):
        once()
    early = work()
    periods(once, case["K"], 130, f"{case['f']['k']} {cyc}", ctx)
    late = work()
    for op, a, b in zip([o for o in cyc if o[0] != "cancel"], early, late):
        if b > 2 * a + 60:
            raise Violation("work-grows", f"{case['f']['k']} {op}: {a} lines at the beginning, {b} lines later")
    for op in cyc:
        ctx.count("op_" + op[0], 5 * case["K"])
        if op[0] in ("bad", "cancel"):
            ctx.count("fault:" + op[0], 5 * case["K"])
    ctx.log(early, late)
    ctx.mark(case["f"]["k"], cyc)


def mlp(case, ctx):
    m = case["m"]
    net = build_mlp(m)
    g = np.random.Generator(np.random.PCG64(case["s"]))
    cyc = case["cycle"]

    def once():
        for op in cyc:
            net_op(net, op, m, g)
    for _ in range(3):
        once()
    early = [lines(lambda: net_op(net, op, m, g)) for op in cyc]
    periods(once, max(20, case["K"] // 4), 40, f"network {cyc}", ctx)
    late = [lines(lambda: net_op(net, op, m, g)) for op in cyc]
    for op, a, b in zip(cyc, early, late):
        if b > 2 * a + 60:
            raise Violation("work-grows", f"network {op}: {a} lines at the beginning, {b} lines later")
    ctx.log(early, late)
    ctx.mark("mlp", m["layers"], m["out"], cyc)


def fns(case, ctx):
    g = np.random.Generator(np.random.PCG64(case["s"]))
    cyc = case["cycle"]

    def one(c):
        a, kw = call_args(dict(c, s=int(g.integers(1 << 30))))
        try:
            fn_of(c["fn"])(*a, **kw)
        except Exception:  # noqa
            if not c["fn"].startswith("invalid"):
                raise

    def once():
        for c in cyc:
            call(c["fn"], one, c)
    once()
    early = [lines(lambda: one(c)) for c in cyc]
    periods(once, max(20, case["K"] // 2), 140, f"{[c['fn'] for c in cyc]}", ctx)
    late = [lines(lambda: one(c)) for c in cyc]
    for c, a, b in zip(cyc, early, late):
        if b > 2 * a + 60:
            raise Violation("work-grows", f"{c['fn']}: {a} lines at the beginning, {b} lines later")
    for c in cyc:
        ctx.count("fn_" + c["fn"])
    ctx.log(early, late)
    ctx.mark("fn", sorted(c["fn"] for c in cyc))


def objects(case, ctx):
    src = Source(case)
    spec = case["f"]
    g = np.random.Generator(np.random.PCG64(case["s"]))

    def make():
        if case["mlp"]:
            net = build_mlp(case["mlp"])
            for u in case["use"]:
                net_op(net, {"adapt": ["pu"], "run": ["run"], "pred": ["predict"], "bad": ["bad", "train"], "copy": ["copy"]}[u],
                       case["mlp"], g)
            return net
        w = spec["w"] if isinstance(spec["w"], str) else list(g.normal(0, 1, spec["n"]))
        f = build(dict(spec, w=w))
        for u in case["use"]:
            sample_op(f, {"run": ["run", 3], "pred": ["pred", 1], "bad": ["bad", "run-none"]}.get(u, [u]), src)
        return f
    ref = weakref.ref(call("construct", make))
    gc.collect()
    if ref() is not None:
        who = [type(r).__name__ for r in gc.get_referrers(ref())][:3]
        raise Violation("not-freed", f"{'network' if case['mlp'] else spec['k']} after {case['use']} is still held by {who}")
    periods(make, max(20, case["K"] // 2), 140, f"objects {'mlp' if case['mlp'] else spec['k']} {case['use']}", ctx, unit=2)
    ctx.count("objects_made", 140 + 2 * case["K"])
    ctx.log(case["use"])
    ctx.mark("objects", spec["k"] if not case["mlp"] else "mlp", case["use"])


def batch(fn, case, g, N, f, net, start=lambda: None):
    """One call with N samples."""
    spec, n = case["f"], case["f"]["n"]
    X = g.normal(0, 1, (N, n))
    d = X[:, 0] + 0.1 * g.normal(0, 1, N)
    lab = np.arange(N) % 2
    pa = lib()
    falling = np.cumsum(1.0 / np.arange(1, N + 1))[:, None]       # increments that never exceed the earlier ones
    start()
    if fn == "run":
        f.run(d, X)
    elif fn == "pre":
        f.pretrained_run(d, X, ntrain=0.5, epochs=1)
    elif fn == "data":
        pa.filters.filter_data(d, X, model=spec["k"], w="zeros", **spec["p"])
    elif fn == "learning_entropy":
        pa.detection.learning_entropy(X, m=10, **({"alpha": [1.0, 3.0, 9.0]} if case["s"] % 2 else {}))
    elif fn == "ELBND":
        pa.detection.ELBND(X, d)
    elif fn == "input_from_history":
        pa.preprocess.input_from_history(d, 5)
    elif fn == "PCA":
        pa.preprocess.PCA_components(np.hstack((X, X * g.normal(0, 1, (N, 1)))))
    elif fn == "LDA":
        pa.preprocess.LDA_discriminants(X, lab)
    elif fn == "PCAn":
        pa.preprocess.PCA(np.hstack((X, X * g.normal(0, 1, (N, 1)))), 1)
    elif fn == "LDAn":
        pa.preprocess.LDA(np.hstack((X, g.normal(0, 1, (N, 1)))), lab, 1)
    elif fn in ("standardize", "standardize_back"):
        getattr(pa.preprocess, fn)(d, 0.5, 2.0)
    elif fn == "ESE":
        pa.detection.ESE(falling, window=20)
    elif fn == "train":
        net.train(X[:N // 4], d[:N // 4], epochs=3, shuffle=True)
    elif fn == "mrun":
        net.run(X)
    elif fn == "mtest":
        net.test(X, d)
    else:
        getattr(pa.misc, fn)(d, X[:, 0])


def models(case):
    spec, fn = case["f"], case["fn"]
    f = build(spec) if fn in ("run", "pre") else None
    net = build_mlp({"layers": [2], "nin": spec["n"], "out": 1, "act": "tanh", "mu": 0.1, "rs": 1}) if fn in ("train", "mrun", "mtest") else None
    return f, net


def lengths(case, ctx):
    """Batches of ever new lengths, from long to short."""
    g = np.random.Generator(np.random.PCG64(case["s"]))
    fn, K, warm = case["fn"], case["K"], 140
    step = 4 if fn == "train" else 1
    f, net = call("construct", models, case)
    left = [warm + 4 * K + 20]

    def once():
        left[0] -= 1
        call(fn, batch, fn, case, g, left[0] * step, f, net)
        call(fn, batch, fn, case, g, 20, f, net)
    periods(once, K, warm, f"{fn} ({case['f']['k']}) with batches of {K} new lengths", ctx)
    ctx.count("lengths_" + fn, warm + 4 * K)
    ctx.log(fn)
    ctx.mark("lengths", fn, case["f"]["k"])


def peak(case, ctx):
    spec, fn = case["f"], case["fn"]
    g = np.random.Generator(np.random.PCG64(case["s"]))

    def measure(N):
        f, net = models(case)
        gc.collect()
        try:
            batch(fn, case, g, N, f, net, tracemalloc.start)
            return tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
    call(fn, measure, 50)
    N = case["N"]
    a, b = call(fn, measure, N), call(fn, measure, 2 * N)
    if b > 2.6 * a + 20000:
        raise Violation("peak-memory", f"{fn} ({spec['k']}): {a} bytes for {N} samples, {b} bytes for {2 * N}")
    ctx.count("peak_" + fn)
    ctx.log(fn)
    ctx.mark("peak", fn, spec["k"], N)


def run(case, ctx):
    {"filter": filt, "mlp": mlp, "fn": fns, "objects": objects, "peak": peak, "lengths": lengths}[case["t"]](case, ctx)
    ctx.nontrivial = True


def simplify(case):
    if case["t"] in ("filter", "mlp", "fn") and len(case["cycle"]) > 1:
        for k in range(len(case["cycle"])):
            yield dict(case, cycle=case["cycle"][:k] + case["cycle"][k + 1:])
    if case["t"] == "objects" and case["use"]:
        yield dict(case, use=case["use"][:-1])
