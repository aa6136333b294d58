"""C01: what a filter learns does not depend on how the stream is delivered."""
import numpy as np

from ..app import FORMS, against_obs, eq, guard_for, log_obs, play, single_run
from ..core import call, chance, lib, pick
from ..world import build, expand, feed_ops, gen_data, gen_filter, make_data, mixcase, shrink_ops, transport, w_arg

ID = "C01"
CASES = {"quick": 12000, "thorough": 600000}
LISTS = ["ops"]
RULE = ("One run = one filter, one simulated source and transport (loss, duplication, reordering, partition, consumer "
        "stall) and one consumer that takes each delivered batch by run, chunked run, adapt, predict+adapt or "
        "pretrained_run; its observations are compared with one run() over the delivered sequence and with the other "
        "entry points. Non-trivial: at least two operations and two samples inside the comparison horizon.")
REAL = ["padasip.filters (all 15 classes, base classes, AdaptiveFilter, get_filter, filter_data)", "numpy"]
STUB = ["sample source", "transport and consumer timing (discrete-event simulation)"]
ASSUME = ["values are compared up to the drift between the double and extended precision reference model; samples "
          "after that drift exceeds 1e-5 relative are not compared (counted in samples_beyond_horizon)"]
COVER = "delivery shapes (filter, parameter signature, sequence of operation kinds and batch sizes)"


def gen(rng, tier, i):
    rec = gen_data(rng)
    f = gen_filter(rng, rec)
    f["mc"] = rng.randrange(256)
    batches, cnt, t = transport(rng, rec["N"], faults=rng.random() < 0.75)
    return {"data": rec, "f": f, "ops": feed_ops(rng, batches), "net": cnt, "t": round(t, 4),
            "how": "dt:" + pick(rng, "", "", ">") + rec["dt"] if "dt" in rec and chance(rng, 0.8) else
            pick(rng, "array", "array", "list", "fortran", "view", "tuple", "buffer", *FORMS)}


def run(case, ctx):
    X, d, _ = make_data(case["data"])
    spec = case["f"]
    ops = case["ops"]
    seq = expand(ops)
    for k, v in case["net"].items():
        ctx.count("fault:" + k, v)
    ctx.simtime += case["t"]
    fa = call("construct", build, spec)
    w0 = np.array(fa.w)
    g = guard_for(spec, w0, X, d, ops)
    fa, oa = play(fa, ops, X, d, case["how"])
    fb = call("construct", build, dict(spec, via="class"))
    fb, ob = single_run(fb, seq, X, d)
    ob.after[len(seq)] = np.array(fb.w)
    n = against_obs(g, oa, ob, ctx, "delivery")
    log_obs(ctx, oa)
    ctx.mark(spec["k"], sorted(spec["p"]), [(o["o"], len(o.get("ix", "1"))) for o in ops][:30], spec["n"])
    if len(ops) > 1 and n > 2:
        ctx.nontrivial = True
    for o in ops:
        ctx.count("op_" + o["o"])
    # the other ways to get the same filter
    if seq and g.K and case["data"]["s"] % 3 == 0:
        pa = lib()
        ix = list(seq)
        kw = dict(spec["p"], w=w_arg(spec))
        y, e, W = call("filter_data", pa.filters.filter_data, np.array(d[ix]), np.array(X[ix]),
                       model=mixcase(spec["k"], spec["mc"]), **kw)
        y2, e2, W2 = call("AdaptiveFilter", lambda: pa.filters.AdaptiveFilter(
            model=mixcase(spec["k"], spec["mc"] ^ 0x5a), n=spec["n"], **dict(spec["p"], w=w_arg(spec)))).run(d[ix], X[ix])
        y3, e3, W3 = call("get_filter", lambda: pa.filters.get_filter(mixcase(spec["k"], 255 - spec["mc"]))(
            spec["n"], **dict(spec["p"], w=w_arg(spec)))).run(d[ix], X[ix])
        K = g.K
        for nm, q in (("filter_data", (y, e, W)), ("AdaptiveFilter", (y2, e2, W2)), ("get_filter", (y3, e3, W3))):
            for what, v, ref in (("y", q[0], ob.y), ("e", q[1], ob.e), ("w", q[2], ob.row)):
                r = np.array([ref[k] for k in range(K)])
                eq(np.asarray(v)[:K], r, f"entry-point:{nm}", f"{what} differs from the class:")
        ctx.count("entry_points_compared", 3)


def simplify(case):
    yield from shrink_ops(case)
    if case["how"] != "array":
        yield dict(case, how="array")
    f = case["f"]
    if f["w"] != "zeros":
        yield dict(case, f=dict(f, w="zeros"))
    if f.get("via") != "class":
        yield dict(case, f=dict(f, via="class"))
