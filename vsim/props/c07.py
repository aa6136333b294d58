"""C07: a rejected call leaves the filter as it was."""
import numpy as np

from ..app import Obs, arr, do, guard_for, log_obs, vec
from ..core import HarnessError, Hang, SimInterrupt, Violation, call, chance, pick, same
from ..programs import build_mlp, gen_mlp, mlp_data, mlp_weights
from ..world import build, feed_ops, gen_data, gen_filter, make_data, shrink_ops, transport

ID = "C07"
CASES = {"quick": 12000, "thorough": 600000}
LISTS = ["ops", "bad"]
RULE = ("One run = one delivered history in which malformed calls (adapt, run, predict, pretrained_run with wrong "
        "lengths, widths, ragged rows, non-numeric targets or non-numeric input values, bursts of them, before, between and after good "
        "samples) are injected, against an equal filter that never sees them (for a bad value inside a run: against "
        "every prefix of the samples before it); in a fifth of the runs the same for a network. Non-trivial: a rejected call followed by a compared good sample.")
REAL = ["padasip.filters (all 15 classes and base classes)", "padasip.ann", "numpy"]
STUB = ["sample source", "transport and consumer timing (discrete-event simulation)", "driver that delivers "
        "malformed samples"]
ASSUME = ["values are compared exactly, and where they differ up to the drift between the double and extended "
          "precision reference model",
          "an input that is a scalar or text, a target given as a list of one number or as numeric text, and complex numbers in "
          "arrays are not claimed to be rejected"]
COVER = "placements (filter, kind of malformed call, operation before and after it)"

# what a broken driver can deliver as a target
TEXT = {"text": "abc", "none": None, "dict": {"a": 1}, "object": object, "texts": ["a", "b"], "empty_text": "",
        "bytes": b"abc", "function": len, "nat": "nat", "class": float}
BAD_CALLS = ["adapt_x", "adapt_x", "adapt_d", "adapt_d", "predict_x", "run_width", "run_width", "run_ragged",
             "run_len", "run_len", "run_d", "run_d", "pre_len", "pre_width", "pre_d", "run_all_d", "run_alltext",
             "adapt_v", "adapt_v", "adapt_m", "adapt_t", "predict_v", "run_v", "pre_v", "run_all_v"]


NET_BAD = ["train_len", "train_len", "train_width", "train_ragged", "train_dim", "train_text", "train_d", "train_d", "test_len",
           "test_width", "test_dim", "test_text", "predict_x", "predict_x", "update_d", "update_n", "run_width", "run_text",
           "predict_v", "train_v"]


def gen_net(rng):
    m = gen_mlp(rng)
    m["N"] = rng.randint(2, 7)
    ops, gaps = [], []
    for _ in range(rng.randint(2, 7)):
        k = rng.randrange(m["N"])
        if chance(rng, 0.25):
            gaps.append(len(ops) + 1)
            ops += [["predict", k], ["u", k]]
            continue
        ops.append(pick(rng, ["train", rng.randint(1, 3)], ["pu", k], ["pu", k], ["predict", k], ["run"], ["test"],
                        ["shuffle", rng.randint(1, 2), rng.randrange(1 << 30)]))
    bad, pref = [], False
    for _ in range(pick(rng, 1, 1, 2, 2, 3, 5)):
        c = rng.choice(NET_BAD)
        if c in ("train_d", "train_v"):
            c = "update_d" if pref else c
            pref = True
        at = rng.randrange(len(ops) + 1) if not gaps or chance(rng, 0.5) else rng.choice(gaps)
        if at in gaps and c.endswith(("_d", "_text", "_v")):
            # what stops within a sample has already replaced the last prediction
            c = pick(rng, "predict_x", "update_n")
        bad.append({"at": at, "c": c, "s": rng.randrange(1 << 20), "k": rng.randrange(m["N"]),
                    "v": pick(rng, *[v for v in TEXT if v not in ("texts",)]), "by": pick(rng, 1, 1, 2, -1, -1), "ep": rng.randint(1, 3),
                    "how": pick(rng, "array", "array", "list")})
        if c.endswith("_v"):
            # (a network takes None for "not a number")
            bad[-1].update(v=pick(rng, *[v for v in TEXT if v not in ("texts", "none", "nat")]), col=rng.randrange(m["nin"]),
                           obj=chance(rng, 0.5))
    return {"net_": m, "ops": ops, "bad": bad, "net": {}, "t": 0.0}


def gen(rng, tier, i):
    if chance(rng, 0.22):
        return gen_net(rng)
    rec = gen_data(rng, N=rng.randint(3, 30) if chance(rng, 0.8) else rng.randint(30, 70))
    f = gen_filter(rng, rec)
    if f["k"] == "OCNLMS" and chance(rng, 0.8):
        f["p"]["mem"] = pick(rng, 2, 3, 4, 5, 6, 8, 10)
    batches, cnt, t = transport(rng, rec["N"], faults=rng.random() < 0.4)
    ops = feed_ops(rng, batches, predict=chance(rng, 0.3))
    bad = []
    pref = False
    for _ in range(pick(rng, 1, 1, 2, 2, 3, 5, 8)):
        c = rng.choice(BAD_CALLS)
        b = {"at": rng.randrange(len(ops) + 1), "c": c, "s": rng.randrange(1 << 20)}
        if c in ("run_d", "pre_d", "run_v", "pre_v"):
            if pref:
                b["c"] = c = "adapt" + c[-2:]
            pref = True
        n = rec["n"]
        if c in ("adapt_x", "predict_x", "run_width", "pre_width"):
            b["len"] = pick(rng, *[v for v in (n + 1, n - 1, 1, 0, 2 * n, n + 7, 2) if v != n and v >= 0])
            b["how"] = pick(rng, "array", "array", "list", "tuple")
        if c in ("run_width", "pre_width") and b["len"] == 0:
            b["len"] = n + 1
        if c == "adapt_m":                       # a matrix where a vector belongs
            b["shape"] = pick(rng, [n, 1], [n, n], [1, n], [2, n], [n, 2]) if n > 1 else pick(rng, [1, 2], [2, 1], [2, 2])
        if c == "adapt_t":                       # several targets for one sample
            b["len"], b["how"] = pick(rng, 2, 3, n if n > 1 else 2, n + 1), pick(rng, "array", "list", "tuple")
        if c[-2:] in ("_d", "_v"):
            b["v"] = pick(rng, *TEXT)
            if c == "adapt_d" and chance(rng, 0.15):
                b["v"] = "complex"
            if c.endswith("_v"):
                b["v"], b["col"] = pick(rng, "none", *[v for v in TEXT if v not in ("texts", "nat")]), rng.randrange(n)
            b["obj"] = chance(rng, 0.5)
        if c.startswith(("run", "pre")):
            b["m"] = rng.randint(2, 7) if chance(rng, 0.75) else rng.randint(1, 40)
            if chance(rng, 0.04) and c in ("run_len", "run_width", "run_all_d", "run_all_v", "run_alltext"):
                b["m"] = rng.randint(64, 300)
            b["k"] = rng.randrange(b["m"])
            if c == "run_width" and n > 1 and chance(rng, 0.15):       # one row of numbers, a table on its side
                b["how"] = pick(rng, "flat", "side") if b["m"] != n else "flat"
        if c in ("run_len", "pre_len"):
            b["dm"] = pick(rng, 1, 2, -1, -1, 5, -2, "scalar", "empty", "double")
        if c.startswith("pre"):
            b["nt"], b["ep"] = pick(rng, 0.5, 0.25, 0.75, 0.4), rng.randint(1, 2)
        if c == "run_ragged":
            b["k"] = rng.randrange(b["m"])
            b["len"] = pick(rng, n + 1, n + 2, max(0, n - 1))
        bad.append(b)
    return {"data": rec, "f": f, "ops": ops, "bad": bad, "net": cnt, "t": round(t, 4), "cont": rng.randrange(1 << 20)}


def value(b):
    if b["v"] == "complex":
        return 1.5 - 2j
    v = TEXT[b["v"]]
    if v == "nat":
        return np.datetime64("2020-01-01")
    return v() if v is object else v


def rejected(what, fn, *args, **kw):
    """The call must raise an ordinary exception."""
    try:
        fn(*args, **kw)
    except (Violation, HarnessError, SimInterrupt, Hang):
        raise
    except Exception:  # noqa
        return
    raise Violation("not-rejected:" + what, f"{what} was accepted")


def shaped(v, how):
    return v if how == "array" else [float(x) for x in v] if how == "list" else tuple(float(x) for x in v)


def broken(x, b):
    """The input vector with one value that is no number."""
    x = [float(v) for v in x]
    x[b["col"]] = value(b)
    if not b["obj"]:
        return x
    o = np.empty(len(x), dtype=object)
    for q, v in enumerate(x):
        o[q] = v
    return o


def table(rows, b):
    if not b["obj"]:
        return rows
    o = np.empty((len(rows), len(rows[0])), dtype=object)
    for q, row in enumerate(rows):
        for p, v in enumerate(row):
            o[q, p] = v
    return o


def learnt(b, ix):
    """The samples of a run or pretrained run before the bad one."""
    if not b["c"].startswith("pre"):
        return ix[:b["k"]]
    nt = int(b["m"] * b["nt"])
    seq = list(range(nt)) * b["ep"] + list(range(nt, b["m"]))
    return [ix[q] for q in seq[:seq.index(b["k"])]]


def inject(f, b, X, d, n):
    """One malformed call.  Returns None, or the list of samples of which a
    prefix may have been learnt."""
    r = np.random.Generator(np.random.PCG64(b["s"]))
    c = b["c"]
    if c in ("adapt_x", "predict_x"):
        x = shaped(r.normal(0, 2, b["len"]), b["how"])
        what = f"{c[:-2]} with {b['len']} input values instead of {n}"
        if c == "adapt_x":
            rejected(what, f.adapt, float(r.normal()), x)
        else:
            rejected(what, f.predict, x)
        return None
    if c == "adapt_m":
        rejected(f"adapt with an input of shape {b['shape']}", f.adapt, float(r.normal()), r.normal(0, 2, b["shape"]))
        return None
    if c == "adapt_t":
        rejected(f"adapt with {b['len']} targets", f.adapt, shaped(r.normal(0, 2, b["len"]), b["how"]), np.array(X[int(r.integers(0, len(X)))]))
        return None
    if c == "adapt_d":
        rejected("adapt with target " + b["v"], f.adapt, value(b), np.array(X[int(r.integers(0, len(X)))]))
        return None
    if c in ("adapt_v", "predict_v"):
        x = broken(X[int(r.integers(0, len(X)))], b)
        what = f"{c[:-2]} with {b['v']} as an input value"
        if c == "adapt_v":
            rejected(what, f.adapt, float(r.normal()), x)
        else:
            rejected(what, f.predict, x)
        return None
    m = b["m"]
    ix = [int(v) for v in r.integers(0, len(X), m)]
    xs, ds = arr(X, ix), vec(d, ix)
    fn, kw = f.run, {}
    if c.startswith("pre"):
        fn, kw = f.pretrained_run, {"ntrain": b["nt"], "epochs": b["ep"]}
    name = fn.__name__
    if c in ("run_width", "pre_width"):
        xs = r.normal(0, 2, (m, b["len"]))
        if b["how"] == "list":
            xs = [[float(v) for v in row] for row in xs]
        elif b["how"] == "tuple":
            xs = np.asfortranarray(xs)
        elif b["how"] == "flat":
            xs = r.normal(0, 2, m)
        elif b["how"] == "side":
            xs = r.normal(0, 2, (n, m))
        rejected(f"{name} with inputs of shape {np.shape(xs)} instead of ({m}, {n})", fn, ds, xs, **kw)
    elif c == "run_ragged":
        xs = [[float(v) for v in row] for row in xs]
        xs[b["k"]] = [float(v) for v in r.normal(0, 1, b["len"])]
        rejected("run with rows of different lengths", fn, ds, xs, **kw)
    elif c in ("run_len", "pre_len"):
        dm = b["dm"]
        if dm == "scalar":
            ds = float(ds[0])
        elif dm == "empty":
            ds = np.zeros(0)
        elif dm == "double":
            ds = np.concatenate((ds, ds))
        elif dm > 0:
            ds = np.concatenate((ds, r.normal(0, 1, dm)))
        else:
            ds = ds[:dm]
        rejected(f"{name} with {np.size(ds)} targets ({dm}) for {m} samples", fn, ds, xs, **kw)
    elif c == "run_all_d":
        v = value(b)
        rejected(f"run with only {b['v']} targets", fn, [v] * m, xs)
    elif c == "run_all_v":
        rejected(f"run with {b['v']} in every input vector", fn, ds, table([broken(x, b) for x in xs], b))
    elif c in ("run_v", "pre_v"):
        rows = [[float(v) for v in x] for x in xs]
        rows[b["k"]] = broken(xs[b["k"]], b)
        rejected(f"{name} with {b['v']} as an input value", fn, ds, table(rows, b), **kw)
        return learnt(b, ix)
    elif c == "run_alltext":
        rejected("run with text targets", fn, np.array(["x%d" % q for q in range(m)]), xs)
    else:                                            # run_d, pre_d: one bad target
        ds = [float(v) for v in ds]
        ds[b["k"]] = value(b)
        if b["obj"]:
            o = np.empty(m, dtype=object)
            for q, v in enumerate(ds):
                o[q] = v
            ds = o
        rejected(f"{name} with a target {b['v']}", fn, ds, xs, **kw)
        return learnt(b, ix)
    return None


def play(case, X, d, prefix, ctx=None):
    """The history with (prefix None) or without the malformed calls.
    Returns the filter, its observations, the samples learnt so far and the
    samples of which some prefix may have been learnt by the bad run."""
    spec, ops = case["f"], case["ops"]
    n = spec["n"]
    f = call("construct", build, spec)
    w0 = np.array(f.w)
    todo = {}
    for b in case["bad"]:
        todo.setdefault(min(b["at"], len(ops)), []).append(b)
    obs, pos, cand, eff = Obs(), 0, [], []
    shift = 0
    for k in range(len(ops) + 1):
        for b in todo.get(k, []):
            if prefix is None:
                ctx.count("fault:" + b["c"])
                ctx.mark(spec["k"], b["c"], b.get("v"), b.get("dm"), b.get("len", n) - n,
                         ops[k - 1]["o"] if k else "start", ops[k]["o"] if k < len(ops) else "end")
                w = np.array(f.w)
                c = inject(f, b, X, d, n)
                if np.shape(f.w) != (n,):
                    raise Violation("weights-shape", f"after a rejected {b['c']} weights have shape {np.shape(f.w)}")
                if c is not None:
                    cand.append(c)
                elif not same(w, np.array(f.w), rtol=1e-12):
                    raise Violation("weights-changed:" + b["c"],
                                    f"rejected call {b} changed the weights from {w} to {np.array(f.w)}")
                if len(f.init_weights("zeros")) != n:
                    raise Violation("size-changed", f"after a rejected {b['c']} the filter creates weights of size "
                                                    f"{len(f.init_weights('zeros'))} instead of {n}")
            elif b["c"] in ("run_d", "pre_d", "run_v", "pre_v") and prefix:
                for i in prefix:
                    call("adapt", f.adapt, d[i], np.array(X[i]))
                eff.append({"o": "adapt", "ix": list(prefix)})
                shift = len(prefix)
        if k < len(ops):
            p0 = pos
            o2 = Obs()
            f, pos = do(f, ops[k], X, d, pos, o2)
            for src, dst in ((o2.y, obs.y), (o2.e, obs.e), (o2.row, obs.row), (o2.after, obs.after)):
                for q, v in src.items():
                    dst[q] = v
            obs.pred += o2.pred
            eff.append(ops[k])
            del p0
    return f, obs, w0, cand, eff, shift


def finish(f, spec, X, d, c):
    """A last look that also shows state the history did not: another reading,
    another run, a cleared memory."""
    r = np.random.Generator(np.random.PCG64(c))
    ix = [int(v) for v in r.integers(0, len(X), 4)]
    out = [float(call("predict", f.predict, np.array(X[ix[0]])))]
    y, e, W = call("run", f.run, vec(d, ix), arr(X, ix))
    out += [np.array(y), np.array(e), np.array(W)]
    if spec["k"] == "OCNLMS":
        call("clear_memory", f.clear_memory)
        y, e, W = call("run", f.run, vec(d, ix), arr(X, ix))
        out += [np.array(y), np.array(e), np.array(W)]
    out.append(np.array(f.w))
    return out


def agree(o, r, fo, fr):
    for a, b in ((o.y, r.y), (o.e, r.e), (o.row, r.row), (o.after, r.after)):
        if a.keys() != b.keys() or not all(same(a[k], b[k], rtol=1e-12) for k in a):
            return False
    return all(same(a, b, rtol=1e-12) for a, b in zip(fo, fr))


# ------------------------------------------------------------------ networks
def net_inject(net, m, b, X, D):
    """One malformed call of a network.  Returns the number of samples that may
    have been learnt before it was rejected."""
    r = np.random.Generator(np.random.PCG64(b["s"]))
    c, by, N = b["c"], b["by"], m["N"]
    what = c.split("_")[0]
    fn = getattr(net, what, None)
    kw = {"epochs": b["ep"]} if what == "train" else {}
    if c.endswith("_len"):
        d = np.concatenate((D, D[:1]) if by == 1 else (D, D)) if by > 0 else D[:-1]
        rejected(f"{what} with {len(d)} targets for {N} samples", fn, X, d, **kw)
    elif c == "run_width" or c.endswith("_width"):
        w = m["nin"] + by
        if w < 2:
            w = m["nin"] + 2
        Y = r.normal(0, 1, (N, w))
        if b["how"] == "list":
            Y = [[float(v) for v in row] for row in Y]
        rejected(f"{what} with rows of {w} values instead of {m['nin']}", fn, Y, *([] if what == "run" else [D]), **kw)
    elif c == "train_ragged":
        Y = [[float(v) for v in row] for row in X]
        Y[b["k"]] = Y[b["k"]] + [1.0, 2.0]
        rejected("train with rows of different lengths", fn, Y, D, **kw)
    elif c.endswith("_dim"):
        d = r.normal(0, 1, (N, m["out"] + 1 + abs(by))) if b["k"] % 2 or m["out"] == 1 else r.normal(0, 1, N)
        rejected(f"{what} with targets of shape {d.shape} for {m['out']} outputs", fn, X, d, **kw)
    elif c.endswith("_text"):
        Y = np.array([["x"] * m["nin"]] * N)
        rejected(f"{what} with text inputs", fn, Y, *([] if what == "run" else [D]), **kw)
    elif c == "predict_x":
        w = m["nin"] + abs(by)
        rejected(f"predict with {w} input values instead of {m['nin']}", fn, r.normal(0, 1, w if w > 1 else 3))
    elif c == "predict_v":
        rejected("predict with the input value " + b["v"], fn, broken(X[b["k"]], b))
    elif c == "train_v":
        rows = [[float(v) for v in x] for x in X]
        rows[b["k"]] = broken(X[b["k"]], b)
        rejected("train with the input value " + b["v"], fn, table(rows, b), D, epochs=1)
        return b["k"]
    elif c == "update_n":
        w = b["k"] % 3 + 2 + m["out"] if b["s"] % 2 else m["layers"][-1] + 1
        d = r.normal(0, 1, w if w != m["out"] and w > 1 else m["out"] + 1)
        rejected(f"update with {len(d)} targets for {m['out']} outputs", fn, d if b["how"] == "array" else d.tolist())
    elif c == "update_d":
        net.predict(X[b["k"]])
        rejected("update with target " + b["v"], fn, value(b))
    else:                                            # one bad target inside a training
        d = np.array(D, dtype=object)
        v = value(b)
        if m["out"] == 1:
            d[b["k"]] = v
        else:
            d[b["k"], 0] = v
        rejected("train with a target " + b["v"], fn, X, d, epochs=1)
        return b["k"]
    return None


def net_play(case, X, D, prefix, ctx=None):
    m = case["net_"]
    net = call("construct", build_mlp, m)
    todo = {}
    for b in case["bad"]:
        todo.setdefault(min(b["at"], len(case["ops"])), []).append(b)
    out, cand = [], None
    for k in range(len(case["ops"]) + 1):
        for b in todo.get(k, []):
            if prefix is None:
                ctx.count("fault:net_" + b["c"])
                ctx.mark("net", b["c"], b["v"] if b["c"].endswith("_d") else b["by"], m["out"], len(m["layers"]))
                w = mlp_weights(net)
                c = net_inject(net, m, b, X, D)
                if c is not None:
                    cand = c
                elif not all(np.array_equal(p, q) for p, q in zip(w, mlp_weights(net))):
                    raise Violation("weights-changed:net_" + b["c"], f"rejected call {b} changed the weights of the network")
            elif b["c"] in ("train_d", "train_v") and prefix:
                call("train", net.train, np.array(X[:prefix]), np.array(D[:prefix]), epochs=1)
        if k < len(case["ops"]):
            op = case["ops"][k]
            o = op[0]
            if o in ("train", "shuffle"):
                if o == "shuffle":
                    np.random.seed(op[2])
                out += [np.array(v) for v in call("train", net.train, X, D, epochs=op[1], shuffle=o == "shuffle")]
            elif o == "pu":
                out += [np.array(call("predict", net.predict, X[op[1]])), np.array(call("update", net.update, D[op[1]]))]
            elif o == "u":
                out.append(np.array(call("update", net.update, D[op[1]])))
            elif o == "predict":
                out.append(np.array(call("predict", net.predict, X[op[1]])))
            else:
                out.append(np.array(call(o, net.run, X) if o == "run" else call(o, net.test, X, D)))
            out += mlp_weights(net)
    out.append(np.array(call("run", net.run, X)))
    return out, cand


def net_run(case, ctx):
    m = case["net_"]
    X, D = mlp_data(m)
    out, cand = net_play(case, X, D, None, ctx)
    for v in out:
        ctx.log(v)
    for j in range((cand or 0) + 1):
        ref, _ = net_play(case, X, D, j)
        if all(same(a, b, rtol=1e-9) for a, b in zip(out, ref)):
            break
    else:
        raise Violation("after-rejected:network", "the network continues differently from one that never got the rejected calls" +
                        (f" (nor from one that learnt a prefix of {cand} samples)" if cand is not None else ""))
    ctx.count("networks")
    ctx.nontrivial = any(b["at"] < len(case["ops"]) for b in case["bad"])


def run(case, ctx):
    if "net_" in case:
        net_run(case, ctx)
        return
    X, d, _ = make_data(case["data"])
    spec, ops = case["f"], case["ops"]
    for k, v in case["net"].items():
        ctx.count("fault:" + k, v)
    ctx.simtime += case["t"]
    f, obs, w0, cand, _, _ = play(case, X, d, None, ctx)
    fin = finish(f, spec, X, d, case["cont"])
    log_obs(ctx, obs)
    for v in fin:
        ctx.log(v)
    prefixes = [[]]
    if cand:
        prefixes = [cand[0][:j] for j in range(len(cand[0]) + 1)]
        ctx.count("runs_with_bad_target_inside")
    refs, ok = [], False
    for p in prefixes:
        r, ro, _, _, eff, shift = play(case, X, d, p)
        rf = finish(r, spec, X, d, case["cont"])
        if agree(obs, ro, fin, rf):
            ok = True
            break
        refs.append((p, ro, rf, eff, shift))
    if not ok:
        errs = []
        for p, ro, rf, eff, shift in refs:
            try:
                tolerant(case, ctx, obs, ro, fin, rf, eff, w0, X, d, len(p), shift)
                ok = True
                break
            except Violation as v:
                errs.append(v)
        if not ok:
            raise errs[0] if len(errs) == 1 else Violation(
                "no-prefix-fits", f"a run rejected for one bad value left the filter in a state that no prefix of "
                                  f"the {len(errs) - 1} samples before it explains; e.g. {errs[0]}")
        ctx.count("compared_with_tolerance")
    ctx.nontrivial = bool(case["bad"]) and any(b["at"] < len(ops) for b in case["bad"])


def tolerant(case, ctx, obs, ro, fin, rf, eff, w0, X, d, extra, shift):
    """Positions count the samples of the good operations only; the guard knows
    the effective sequence including the prefix learnt by the bad run."""
    g = guard_for(case["f"], w0, X, d, eff)
    lim = g.K - extra
    last = max([len(obs.y)] + [k for o in (obs.y, obs.row, obs.after) for k in o])
    tw = [float(np.max(g.tw[:min(k + extra, len(g.tw) - 1) + 1])) for k in range(last + 2)]
    for a, b, name in ((obs.y, ro.y, "output"), (obs.e, ro.e, "error")):
        for k in a:
            if k < lim:
                t = 4 * float(np.max(g.ty[:k + extra + 1]))
                if k not in b or not abs(a[k] - b[k]) <= t:
                    raise Violation("after-rejected:" + name, f"sample {k}: {a[k]!r}, without the rejected calls "
                                                              f"{b.get(k)!r} (tolerance {t:.3g})")
    for a, b in ((obs.row, ro.row), (obs.after, ro.after)):
        for k in a:
            if k <= lim and k in b and not np.all(np.abs(a[k] - b[k]) <= 4 * tw[k]):
                raise Violation("after-rejected:weights", f"before sample {k}: {a[k]}, without the rejected calls "
                                                          f"{b[k]} (tolerance {4 * tw[k]:.3g})")
    if lim >= last:
        for a, b in zip(fin, rf):
            if not same(a, b, rtol=1e-4):
                raise Violation("after-rejected:continuation", f"{a} instead of {b}")


def simplify(case):
    if "net_" in case:
        m = case["net_"]
        for q, v in (("out", 1), ("nin", 1), ("mu", 0.1), ("layers", m["layers"][:1])):
            if m[q] != v:
                yield dict(case, net_=dict(m, **{q: v}))
        return
    yield from shrink_ops(case)
    for k, b in enumerate(case["bad"]):
        for alt in ({"at": 0}, {"v": "none"}, {"v": "text"}, {"k": 0}, {"m": 2}, {"obj": False}, {"how": "array"}):
            q, v = next(iter(alt.items()))
            if q in b and b[q] != v and not (q == "m" and b.get("k", 0) >= 2):
                yield dict(case, bad=case["bad"][:k] + [dict(b, **alt)] + case["bad"][k + 1:])
