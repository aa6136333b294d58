"""C03: every filter follows its documented adaptation law over any history."""
import json
import os

import numpy as np

from ..app import FORMS, against_model, guard_for, log_obs, play
from ..core import Violation, call, chance, pick, r6
from ..models import DEFAULTS, DocOCNLMS
from ..world import build, expand, feed_ops, gen_data, gen_filter, make_data, shrink_ops, transport

ID = "C03"
CASES = {"quick": 12000, "thorough": 600000}
LISTS = ["ops"]
RULE = ("One run = one filter driven by a simulated faulty stream (loss, duplication, reordering, partition, stall, "
        "restart from a checkpoint, sensor faults in the data) and compared sample by sample with an executable "
        "reference model of its law. Non-trivial: at least three samples inside the comparison horizon.")
REAL = ["padasip.filters (all 15 classes and base classes)", "numpy"]
STUB = ["sample source", "transport and consumer timing (discrete-event simulation)", "reference models (oracle)"]
ASSUME = ["the reference models in vsim/models.py state the documented laws; OCNLMS is modelled as built where its "
          "documentation is broken by the known finding (centring memory filled every second slot)",
          "values are compared up to the drift between the double and extended precision model; later samples are "
          "not compared (counted in samples_beyond_horizon)"]
COVER = "model trajectories (filter, parameter signature, data kind, operation kinds)"
FINDING = "ocnlms-centering-memory-half-filled"


def gen(rng, tier, i):
    rec = gen_data(rng)
    if rec["kind"] not in ("int", "pcm") and chance(rng, 0.04):        # other units: volts or nanovolts
        rec["scale"] = pick(rng, 1e-5, 1e-7, 1e-9, 1e4, 1e6)
    f = gen_filter(rng, rec)
    f["mc"] = rng.randrange(256)
    if f["k"] == "AP" and rec["scale"] > 1e3:                          # or its window is singular in double precision
        f["p"]["ifc"] = r6(f["p"].get("ifc", 0.001) * rec["scale"] ** 2)
    if chance(rng, 0.04) and "mu" in DEFAULTS[f["k"]]:      # documented default parameters
        f["p"] = {q: v for q, v in f["p"].items() if chance(rng, 0.3) and q != "mu"}
    if chance(rng, 0.05) and "mu" in f["p"] and f["k"] != "RLS":      # steps too large to converge
        f["p"]["mu"] = pick(rng, 2, 2.5, 3.0, 5.0) if f["k"] in ("NLMS", "GNGD", "OCNLMS", "AP") else r6(f["p"]["mu"] * pick(rng, 4, 10, 40))
    if f["k"] == "GMCC" and chance(rng, 0.06):
        f["p"]["alpha"] = pick(rng, 6, 5.5, 8, 1.05)
    batches, cnt, t = transport(rng, rec["N"], faults=rng.random() < 0.6)
    ops = feed_ops(rng, batches)
    if chance(rng, 0.3):
        for _ in range(rng.randint(1, 3)):
            ops.insert(rng.randrange(len(ops) + 1), {"o": "restart", "how": pick(rng, "deepcopy", "pickle"),
                                                     "proto": pick(rng, 2, 3, 4, 5)})
    return {"data": rec, "f": f, "ops": ops, "net": cnt, "t": round(t, 4),
            "how": "dt:" + pick(rng, "", "", ">") + rec["dt"] if "dt" in rec and chance(rng, 0.9) else
            pick(rng, "array", "array", "list", "fortran", "view", "tuple", "buffer", *FORMS)}


def run(case, ctx):
    X, d, _ = make_data(case["data"])
    spec, ops = case["f"], case["ops"]
    for k, v in case["net"].items():
        ctx.count("fault:" + k, v)
    ctx.simtime += case["t"]
    f = call("construct", build, spec)
    w0 = np.array(f.w)
    if isinstance(spec["w"], list) and not np.array_equal(w0, spec["w"]):
        raise Violation("law:initial-weights", f"{w0} instead of {spec['w']}")
    if spec["w"] == "zeros" and np.any(w0 != 0):
        raise Violation("law:initial-weights", f"{w0} instead of zeros")
    g = guard_for(spec, w0, X, d, ops)
    f, obs = play(f, ops, X, d, case["how"])
    n = against_model(g, obs, ctx)
    log_obs(ctx, obs)
    ctx.count("filter_" + spec["k"])
    for o in ops:
        ctx.count("op_" + o["o"] if o["o"] != "restart" else "fault:restart_from_checkpoint")
    ctx.mark(spec["k"], sorted(spec["p"].items()), case["data"]["kind"], case["data"]["dk"], spec["n"])
    ctx.nontrivial = g.K >= 3 and n >= 3
    N = len(g.y)
    if g.K == N:
        r = np.random.Generator(np.random.PCG64(case["data"]["s"] + 1))
        for x in (r.normal(0, 1, spec["n"]), np.zeros(spec["n"])):
            v, m = float(call("predict", f.predict, x)), float(g.b.predict(x))
            tol = 1e-9 * (1e-9 + abs(m) + float(np.sum(np.abs(x)) * np.max(np.abs(g.W[N])))) + \
                g.tw[N] * (1 + float(np.sum(np.abs(x)))) * 10
            if spec["k"] == "OCNLMS":
                tol += 1e-9 * (np.max(np.abs(X)) * np.sum(np.abs(g.W[N])) + np.max(np.abs(d)))
            if not abs(v - m) <= tol:
                raise Violation("law:final-prediction", f"predict gives {v!r}, the law {m!r}")
    if spec["k"] == "OCNLMS" and g.K >= 4:
        # the recorded finding: as built, the law is not the documented one
        doc = DocOCNLMS(spec, w0)
        seq = expand(ops)
        for k in range(g.K):
            y, e = doc.step(d[seq[k]], X[seq[k]])
            if k >= 3 and abs(y - g.y[k]) > 1e-6 * (1 + abs(y)) and k in obs.y:
                ctx.known_finding(FINDING, "FilterOCNLMS centres with a memory of which only every second slot is "
                                           "filled (its index advances twice per sample), so outputs and errors differ from "
                                           "the documented centring over the last `mem` samples")
                break


def simplify(case):
    yield from shrink_ops(case)
    if case["how"] != "array":
        yield dict(case, how="array")
    f = case["f"]
    if f["w"] != "zeros":
        yield dict(case, f=dict(f, w="zeros"))
