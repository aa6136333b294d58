"""C02: prediction is a pure read."""
import numpy as np

from ..app import FORMS, form, Obs, against_obs, do, guard_for, log_obs
from ..core import Violation, call, chance, pick
from ..world import build, expand, feed_ops, gen_data, gen_filter, make_data, shrink_ops, transport

ID = "C02"
CASES = {"quick": 12000, "thorough": 600000}
LISTS = ["ops", "extra"]
RULE = ("One run = the same delivered history given to two equal filters, one of which also serves predictions at "
        "random points (bursts, reused and overwritten arrays, the very array later passed to adapt). Non-trivial: at "
        "least one interposed prediction followed by at least one compared sample.")
REAL = ["padasip.filters (all 15 classes and base classes)", "numpy"]
STUB = ["sample source", "transport and consumer timing (discrete-event simulation)", "reader of predictions"]
ASSUME = ["values are compared up to the drift between the double and extended precision reference model"]
COVER = "placements (filter, operation kinds, positions and burst sizes of predictions)"


def gen(rng, tier, i):
    rec = gen_data(rng)
    f = gen_filter(rng, rec)
    if f["k"] == "OCNLMS" and chance(rng, 0.7):
        f["p"]["mem"] = pick(rng, 2, 3, 4, 5, 6, 8, 10)
    batches, cnt, t = transport(rng, rec["N"], faults=rng.random() < 0.5)
    ops = feed_ops(rng, batches, predict=False)
    extra = []
    for _ in range(rng.randint(1, 12)):
        extra.append({"at": rng.randrange(len(ops) + 1), "s": rng.randrange(1 << 20),
                      "n": pick(rng, 1, 1, 2, 3, 7, 30) if chance(rng, 0.97) else pick(rng, 130, 260, 260, 260, 1100),
                      "m": pick(rng, "same", "rows", "random", "scribble", "zero", "next", "big", "unit", "broken", "odd")})
        if chance(rng, 0.15):
            extra[-1]["how"] = pick(rng, "list", "list", "tuple", *FORMS)
    return {"data": rec, "f": f, "ops": ops, "extra": extra, "net": cnt, "t": round(t, 4),
            "buf": chance(rng, 0.5)}


def given(x, how):
    return x if not how else form(x, how) if how in FORMS else x.tolist() if how == "list" else tuple(x.tolist())


def feed(f, op, X, d, pos, obs, buf):
    """As app.do, but with one driver buffer reused for every sample."""
    if buf is None or op["o"] not in ("adapt", "rt"):
        return do(f, op, X, d, pos, obs)
    for i in op["ix"]:
        buf[:] = X[i]
        if op["o"] == "rt":
            obs.y[pos] = float(call("predict", f.predict, buf))
        call("adapt", f.adapt, d[i], buf)
        pos += 1
        obs.after[pos] = np.array(f.w)
    return f, pos


def run(case, ctx):
    X, d, _ = make_data(case["data"])
    spec, ops = case["f"], case["ops"]
    n = spec["n"]
    for k, v in case["net"].items():
        ctx.count("fault:" + k, v)
    ctx.simtime += case["t"]
    g0 = call("construct", build, spec)
    w0 = np.array(g0.w)
    g = guard_for(spec, w0, X, d, ops)
    # the history without the extra predictions: adapt instead of predict+adapt
    ref, pos = Obs(), 0
    for op in ops:
        o = dict(op, o="adapt") if op["o"] == "rt" else op
        g0, pos = do(g0, o, X, d, pos, ref)
    # the same with predictions
    f = call("construct", build, spec)
    buf = np.zeros(n) if case["buf"] else None
    got, pos, served = Obs(), 0, 0
    todo = {}
    for x in case["extra"]:
        todo.setdefault(min(x["at"], len(ops)), []).append(x)
    probe = np.cos(np.arange(n) + 1.0)
    for k in range(len(ops) + 1):
        for ex in todo.get(k, []):
            served += serve(f, ex, X, ops, k, spec, buf, ctx, g, pos)
        if k < len(ops):
            f, pos = feed(f, ops[k], X, d, pos, got, buf)
    for q in range(len(ref.y) and 1):
        pass
    against_obs(g, got, ref, ctx, "after-predict")
    if g.K == len(g.y):
        a, b = float(call("predict", f.predict, probe)), float(call("predict", g0.predict, probe))
        if not abs(a - b) <= 4 * (1e-9 * abs(b) + g.tw[g.K] * (np.sum(np.abs(probe)) + 1)
                                  + (g.ty[-1] if len(g.ty) else 0)):
            raise Violation("after-predict:prediction", f"final prediction {a!r} with extra predictions, {b!r} without")
    # continue both with one common run: state that only training shows
    log_obs(ctx, got)
    ctx.count("predictions_interposed", served)
    ctx.mark(spec["k"], [o["o"] for o in ops][:12], sorted((x["at"], x["n"], x["m"]) for x in case["extra"])[:6])
    ctx.nontrivial = served > 0 and g.K > 0 and bool(ops)


def serve(f, ex, X, ops, k, spec, buf, ctx, g, pos):
    r = np.random.Generator(np.random.PCG64(ex["s"]))
    n = spec["n"]
    m = ex["m"]
    w = np.array(f.w)
    first = {}
    x = np.array(X[int(r.integers(0, len(X)))])
    if m == "next" and k < len(ops) and ops[k].get("ix"):
        x = np.array(X[ops[k]["ix"][0]])
    if m == "zero":
        x = np.zeros(n)
    if m == "big":
        x = x * 1e6
    if m == "unit":
        x = np.zeros(n)
        x[int(r.integers(0, n))] = 1.0
    if m == "broken":                       # a dead sensor: the value is not a number, the filter is not concerned
        x[int(r.integers(0, n))] = [np.nan, np.inf, -np.inf][ex["s"] % 3]
    if m == "odd":                          # magnitudes and number types of other sources
        e = int(r.integers(0, 8))
        if e < 3:
            x = r.normal(0, 1, n) * [1e-300, 1e150, 1e-160][e]
        elif e < 6:
            x = r.integers(-9, 10, n) * 10 ** int(r.integers(0, 9))
            x = x.astype(["int64", "int32", "float32"][e - 3])
        else:
            x = r.integers(0, 2, n).astype([bool, "uint8"][e - 6])
    tgt = buf if (buf is not None and m in ("same", "scribble", "next")) else x
    if tgt is not x:
        tgt[:] = x
    for j in range(ex["n"]):
        if m in ("rows", "random"):
            q = int(r.integers(0, len(X)))
            x = np.array(X[q]) if m == "rows" else r.normal(0, 1, n)
            tgt = x
        elif m == "scribble":
            tgt[:] = r.normal(0, 3, n)
        v = float(call("predict", f.predict, given(tgt, ex.get("how"))))
        key = tgt.tobytes()
        if key in first and first[key] != v and not (np.isnan(v) and np.isnan(first[key])):
            if not abs(first[key] - v) <= 1e-9 * (abs(v) + float(np.sum(np.abs(w * tgt)))):
                raise Violation("repeat-prediction", f"the same input gave {first[key]!r} and then {v!r}")
        first.setdefault(key, v)
        if spec["k"] != "OCNLMS":
            ip = float(np.sum(w.astype(np.longdouble) * tgt))
            if not abs(v - ip) <= 1e-9 * float(np.sum(np.abs(w * tgt))) + 1e-300 and np.isfinite(ip):
                raise Violation("inner-product", f"predict gives {v!r}, weights times input is {ip!r}")
        if not np.array_equal(np.asarray(f.w), w, equal_nan=True):
            raise Violation("predict-changes-weights", f"{w} became {np.array(f.w)}")
        ctx.count("predict_" + m)
    if m == "scribble":
        tgt[:] = 1e9
    return ex["n"]


def simplify(case):
    yield from shrink_ops(case)
    for k, x in enumerate(case["extra"]):
        for alt in ({"n": 1}, {"n": max(1, x["n"] // 2)}, {"m": "rows"}):
            c = dict(x, **alt)
            if c != x:
                yield dict(case, extra=case["extra"][:k] + [c] + case["extra"][k + 1:])
    if case["buf"]:
        yield dict(case, buf=False)
