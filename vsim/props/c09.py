"""C09: randomness is drawn only where documented and is reproducible from the seed."""
import random
import sys

import numpy as np

from ..core import Hang, HarnessError, Violation, call, chance, describe, lib, pick, same
from ..programs import Program, call_args, ODD, flat, fn_of, gen_call, gen_form, gen_mlp, gen_program, mlp_data, mlp_weights
from ..sched import PREFIX, make_exc
from ..world import CLASSES, KINDS, make_data, mixcase

ID = "C09"
CASES = {"quick": 6000, "thorough": 250000}
LISTS = ["steps"]
RULE = ("One run = one application that seeds the global generators, makes random-consuming library calls and draws of "
        "its own, with arbitrary other library calls (valid, failing, interrupted at a chosen line) in between; the "
        "generators are compared before and after every other call, in part of the runs at every line of the library; "
        "then the application runs again with other or no calls in between. Or: statistics of many initial weights. "
        "Non-trivial: at least one random-consuming and one other call, or a statistics run.")
REAL = ["the whole of padasip", "numpy", "scipy.stats (ESE)"]
STUB = ["application that owns the seed and draws from the same generator", "fault injector (sys.settrace)"]
ASSUME = ["statistics of initial weights are checked at six standard errors"]
COVER = "call sequences (kinds of random-consuming calls and of the calls between them)"


def gen_between(rng):
    t = pick(rng, "prog", "prog", "fn", "fn", "bad", "mlp_same", "zeros")
    if t == "prog":
        p = gen_program(rng, kind=pick(rng, "filter", "filter", "fn"), maxN=8)
        if p["t"] == "filter" and chance(rng, 0.05):          # numbers that overflow
            p["data"]["scale"] = pick(rng, 1e80, 1e160, 1e300)
        return {"t": t, "p": p}
    if t == "fn":
        c = gen_call(rng)
        if chance(rng, 0.35):
            c["odd"] = pick(rng, *ODD)
        if chance(rng, 0.3):
            gen_form(rng, c)
        return {"t": t, "c": c}
    if t == "bad":
        return {"t": t, "b": pick(rng, "model", "w", "len", "adapt", "mu", "fn", "data")}
    if t == "zeros":
        return {"t": t, "k": pick(rng, *KINDS), "n": rng.randint(1, 6), "how": pick(rng, "zeros", "list", "array")}
    return {"t": t, "o": pick(rng, "run", "test", "predict", "train", "update")}


def gen(rng, tier, i):
    if chance(rng, 0.12):
        st = {"t": "stat", "seed": rng.randrange(1 << 30)}
        if chance(rng, 0.5):
            st.update(what="filter", k=pick(rng, *KINDS), n=pick(rng, 1, 2, 3, 7, 20, 400, 3000),
                      how=pick(rng, "class", "default", "factory", "init", "get"))
        else:
            st.update(what="mlp", layers=[pick(rng, 1, 2, 3, 5, 9, 20) for _ in range(rng.randint(1, 3))],
                      nin=pick(rng, 1, 2, 3, 6, 15, 40), out=pick(rng, 1, 1, 2, 5))
        return st
    steps = []
    for _ in range(rng.randint(2, 7)):
        for _ in range(rng.randint(0, 2)):
            steps.append({"t": "other", "b": gen_between(rng), "watch": chance(rng, 0.25),
                          "cut": rng.randint(1, 60) if chance(rng, 0.15) else 0})
        t = pick(rng, "filter", "filter", "filter", "mlp", "shuffle", "shuffle", "app", "filter_data", "seed")
        s = {"t": t}
        if t == "filter":
            s.update(k=pick(rng, *KINDS), n=pick(rng, 1, 2, 3, 4, 4, 4, 9, 9, 16, 24, 33, 65, 130), mc=rng.randrange(256),
                     how=pick(rng, "class", "default", "factory", "init", "get"))
        elif t == "filter_data":
            s.update(k=pick(rng, *KINDS), s=rng.randrange(1 << 30), dflt=chance(rng, 0.5))
        elif t == "mlp":
            s["m"] = gen_mlp(rng)
        elif t == "shuffle":
            m = gen_mlp(rng)
            m["N"] = rng.randint(2, 7)
            s.update(m=m, ep=rng.randint(1, 3), reps=rng.randint(1, 2))
        elif t == "app":
            s.update(g=pick(rng, "np", "np", "py"), k=rng.randint(1, 5))
        elif t == "seed":
            s["seed"] = rng.randrange(1 << 30)
        steps.append(s)
    return {"t": "app", "seed": rng.randrange(1 << 30), "steps": steps, "bs": rng.randrange(1 << 30),
            "again": pick(rng, "none", "none", "other")}


# ------------------------------------------------------------------ generators
def rstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def unchanged(before, what):
    now = rstate()
    if now[0] != before[0]:
        raise Violation("numpy-generator-touched:" + what.split(" ")[0], f"{what} changed NumPy's global generator")
    if now[1] != before[1]:
        raise Violation("python-generator-touched:" + what.split(" ")[0], f"{what} changed Python's random module")


def observed(fn, watch, cut, what, ctx):
    """fn() with the generators compared at every line (watch), interrupted at
    line number `cut` (0: not)."""
    before = rstate()
    bad = []
    st = {"n": 0}

    def local(frame, event, arg):
        if event == "line":
            st["n"] += 1
            if watch and not bad and rstate() != before:
                bad.append(f"{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}")
            if cut and st["n"] == cut:
                ctx.count("fault:interrupt")
                raise make_exc("interrupt")
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PREFIX) else None
    if watch or cut:
        sys.settrace(tracer)
    try:
        fn()
    except (Violation, HarnessError, Hang):
        raise
    except BaseException as ex:  # noqa
        ctx.count("other_calls_that_raised")
    finally:
        sys.settrace(None)
    if bad:
        raise Violation("generator-touched-during:" + what.split(" ")[0],
                        f"{what}: the global generators differ while it works (seen at {bad[0]})")
    unchanged(before, what)
    ctx.count("lines_watched" if watch else "other_calls", st["n"] if watch else 1)


def between(b, nets, ctx, watch, cut):
    pa = lib()
    t = b["t"]
    if t == "prog":
        P = Program(b["p"]) if b["p"]["t"] != "mlp" else None
        for j in range(P.n):
            op = P.rec["ops"][j]
            name = op.get("fn") or f"{P.rec['f']['k']}.{op['o']}"
            observed(lambda: P.step(j, on_exc=reraise), watch, cut, name, ctx)
    elif t == "fn":
        a, kw = call_args(b["c"])
        if b["c"].get("odd"):
            ctx.count("degenerate_arguments")
        observed(lambda: fn_of(b["c"]["fn"])(*a, **kw), watch, cut, b["c"]["fn"], ctx)
    elif t == "zeros":
        w = {"zeros": "zeros", "list": [0.5] * b["n"], "array": np.ones(b["n"])}[b["how"]]
        observed(lambda: getattr(pa.filters, CLASSES[b["k"]])(b["n"], mu=0.1, w=w), watch, cut, f"construct {b['k']}", ctx)
    elif t == "bad":
        F = {"model": lambda: pa.filters.AdaptiveFilter(model="nonsense", n=3),
             "w": lambda: pa.filters.FilterLMS(3, w=[1, 2]),
             "len": lambda: pa.filters.FilterNLMS(2, w="zeros").run(np.zeros(3), np.zeros((2, 2))),
             "adapt": lambda: pa.filters.FilterRLS(2, w="zeros").adapt("x", np.zeros(2)),
             "mu": lambda: pa.filters.FilterGNGD(2, w="nonsense"),
             "fn": lambda: pa.misc.get_mean_error([1, 2], [1, 3], function="nonsense"),
             "data": lambda: pa.preprocess.input_from_history(np.zeros(3), 9)}
        observed(F[b["b"]], watch, cut, f"failing call {b['b']}", ctx)
    elif t == "mlp_same" and nets:
        net, X, D = nets[-1]
        ws = mlp_weights(net)
        F = {"run": lambda: net.run(X), "test": lambda: net.test(X, D), "predict": lambda: net.predict(X[0]),
             "train": lambda: net.train(X, D, epochs=1), "update": lambda: (net.predict(X[0]), net.update(D[0]))}
        observed(F[b["o"]], watch, cut, f"mlp.{b['o']}", ctx)
        # an untouched network is needed later: undo what this training did
        for l, w in zip(net.layers, ws):
            l.w = w
        net.w = ws[-1]


def reraise(ex):
    raise ex


def make_filter(s, pa):
    """A random-consuming construction; returns the drawn weights."""
    k, n, how = s["k"], s["n"], s["how"]
    if how == "class":
        return getattr(pa.filters, CLASSES[k])(n, mu=0.1, w="random").w
    if how == "default":
        return getattr(pa.filters, CLASSES[k])(n, mu=0.1).w
    if how == "factory":
        return pa.filters.AdaptiveFilter(model=mixcase(k, s.get("mc", 0)), n=n, mu=0.1, w="random").w
    if how == "get":
        return pa.filters.get_filter(mixcase(k, s.get("mc", 0)))(n=n, mu=0.1).w
    f = getattr(pa.filters, CLASSES[k])(n, mu=0.1, w="zeros")
    return f.init_weights("random", n)


def application(case, mode, ctx):
    """mode: 'first', 'none' (nothing in between), 'other' (other calls in between)."""
    pa = lib()
    np.random.seed(case["seed"])
    random.seed(case["seed"])
    out, nets = [], []
    alt = random.Random(case["bs"])
    for s in case["steps"]:
        t = s["t"]
        if t == "other":
            if mode == "first":
                between(s["b"], nets, ctx, s["watch"], s["cut"])
                ctx.mark("other", s["b"]["t"], s["cut"], [o[0] for o in out][-3:])
            continue
        if mode == "other" and alt.random() < 0.7:
            between(gen_between(alt), nets, ctx, False, 0)
        if t == "seed":
            np.random.seed(s["seed"])
            random.seed(s["seed"])
            out.append(("seed", []))
            continue
        if t == "app":
            v = np.random.random(s["k"]) if s["g"] == "np" else [random.random() for _ in range(s["k"])]
            out.append(("app", [np.array(v)]))
            continue
        py, before = random.getstate(), rstate()[0]
        if t == "filter":
            r = [np.array(call("construct", make_filter, s, pa))]
            if r[0].shape != (s["n"],):
                raise Violation("random-weights-shape", f"{r[0].shape} for size {s['n']}")
        elif t == "filter_data":
            rec = {"s": s["s"], "n": 3, "N": 4, "kind": "white", "scale": 1.0, "dk": "linear"}
            X, d, _ = make_data(rec)
            kw = {} if s["dflt"] else {"w": "random"}
            r = flat(call("filter_data", pa.filters.filter_data, d, X, model=s["k"], mu=0.1, **kw))
        elif t == "mlp":
            net = new_mlp(s["m"], pa)
            nets.append((net,) + mlp_data(s["m"]))
            r = mlp_weights(net)
        else:
            net = new_mlp(s["m"], pa)
            X, D = mlp_data(s["m"])
            r = mlp_weights(net)
            for _ in range(s["reps"]):
                now = rstate()[0]
                r += flat(call("mlp.train", net.train, X, D, epochs=s["ep"], shuffle=True))
                if len(X) > 1 and rstate()[0] == now:
                    raise Violation("shuffle-draws-nothing", "training with shuffle=True left the global generator as it was")
            r += mlp_weights(net)
            nets.append((net, X, D))
        if random.getstate() != py:
            raise Violation("python-generator-touched:" + t, f"{t} changed Python's random module")
        if rstate()[0] == before:
            raise Violation("draws-nothing:" + t, f"{t} with random weights left the global generator as it was")
        out.append((t, r))
        if mode == "first":
            ctx.count("random_" + t)
    out.append(("app", [np.random.random(3), np.array([random.random()])]))
    return out


def new_mlp(m, pa):
    return call("construct", pa.ann.NetworkMLP, list(m["layers"]), m["nin"], outputs=m["out"], activation=m["act"],
                mu=m["mu"])


def run(case, ctx):
    if case["t"] == "stat":
        return stat(case, ctx)
    a = application(case, "first", ctx)
    b = application(case, case["again"], ctx)
    for k, (u, v) in enumerate(zip(a, b)):
        for p, q in zip(u[1], v[1]):
            tol = 0 if u[0] in ("app", "filter") else 1e-9
            if not same(p, q, rtol=tol):
                raise Violation("not-reproducible:" + u[0],
                                f"random-consuming call {k} ({u[0]}) after the same seed gave {describe(p)} with and "
                                f"{describe(q)} without the calls in between")
            ctx.log(p)
    # without reseeding, successive initialisations differ
    seen = {}
    for k, (t, r) in enumerate(a):
        if t == "seed":
            seen = {}
        if t in ("filter", "mlp"):
            for w in r:
                key = w.shape
                for old in seen.get(key, []):
                    if w.size and np.array_equal(old, w):
                        raise Violation("same-weights-twice", f"two random initialisations gave {describe(w)}")
                seen.setdefault(key, []).append(w)
    # another seed, other weights
    if any(t in ("filter", "mlp") for t, _ in a) and not any(t == "seed" for t, _ in a):
        c = application(dict(case, seed=case["seed"] ^ 1, steps=[s for s in case["steps"] if s["t"] in
                                                                ("filter", "mlp")]), "none", ctx)
        d = [r for t, r in a if t in ("filter", "mlp")]
        for p, q in zip(d, [r for t, r in c if t in ("filter", "mlp")]):
            if np.array_equal(p[0], q[0]):
                raise Violation("seed-ignored", f"another seed of the global generator gave the same {describe(p[0])}")
    ctx.nontrivial = len(a) > 1 and any(s["t"] == "other" for s in case["steps"])
    ctx.mark([t for t, _ in a])


def moments(v, sigma, what):
    n = v.size
    m, s = float(np.mean(v)), float(np.std(v))
    if abs(m) > 6 * sigma / np.sqrt(n):
        raise Violation("weights-mean:" + what, f"mean {m:.5f} of {n} weights (expected 0 +- {6 * sigma / np.sqrt(n):.5f})")
    if abs(s - sigma) > 6 * sigma / np.sqrt(2 * n) * 1.3 + 3 * sigma / n:
        raise Violation("weights-deviation:" + what, f"standard deviation {s:.5f} of {n} weights, expected {sigma:.5f}")


def stat(case, ctx):
    pa = lib()
    np.random.seed(case["seed"])
    if case["what"] == "filter":
        reps = max(1, 2400 // case["n"])
        v = np.concatenate([np.array(call("construct", make_filter, case, pa)) for _ in range(reps)])
        moments(v, 0.5, "filter")
        ctx.count("weights_sampled", v.size)
        ctx.log(v[:5])
    else:
        sizes = [case["nin"]] + case["layers"]
        tot = sum((a + 1) * b for a, b in zip(sizes, case["layers"] + [case["out"]]))
        reps = max(30, min(500, 6000 // tot))
        acc = None
        for _ in range(reps):
            net = call("construct", pa.ann.NetworkMLP, list(case["layers"]), case["nin"], outputs=case["out"])
            ws = [w.ravel() for w in mlp_weights(net)]
            acc = [[] for _ in ws] if acc is None else acc
            for q, w in zip(acc, ws):
                q.append(w)
        for k, q in enumerate(acc):
            v = np.concatenate(q)
            moments(v, sizes[k] ** -0.5, "mlp")
            ctx.count("weights_sampled", v.size)
            ctx.log(v[:5])
    ctx.mark("stat", case["what"], case.get("k"), case.get("layers"), case.get("n"))
    ctx.nontrivial = True


def simplify(case):
    if case["t"] != "app":
        return
    for k, s in enumerate(case["steps"]):
        if s["t"] == "other":
            for alt in ({"watch": False}, {"cut": 0}):
                q, v = next(iter(alt.items()))
                if s[q] != v:
                    yield dict(case, steps=case["steps"][:k] + [dict(s, **alt)] + case["steps"][k + 1:])
    if case["again"] != "none":
        yield dict(case, again="none")
