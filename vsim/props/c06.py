"""C06: a checkpoint holds the whole state; crash and restore continue identically."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from ..app import Obs, against_obs, do, guard_for, log_obs, play
from ..core import Hang, HarnessError, Violation, call, chance, describe, fresh_lib, maxdiff, pick, same
from ..programs import build_mlp, flat, gen_mlp, mlp_data, mlp_weights
from ..sched import trace_call
from ..world import build, expand, feed_ops, gen_data, gen_filter, make_data, shrink_ops, transport

ID = "C06"
CASES = {"quick": 6000, "thorough": 300000}
LISTS = ["ops", "points"]
RULE = ("One run = a training history with 1-4 checkpoints (deepcopy, every pickle protocol); after a checkpoint the "
        "original trains on, is overwritten or crashes at a chosen line of its next call, the process image is replaced (fresh "
        "import, for some runs a new process) and the restored object takes over; all observations are compared with an "
        "uninterrupted history. Non-trivial: a checkpoint with at least one compared sample after it.")
REAL = ["padasip.filters (all 15 classes)", "padasip.ann.NetworkMLP", "copy", "pickle", "numpy"]
STUB = ["sample source and transport", "crash instants", "process image (fresh import) except for runs with a real new process"]
ASSUME = ["values are compared up to the drift between the double and extended precision reference model"]
COVER = "checkpoint situations (object, operation before and after, method, fate of the original, crash place)"


def gen(rng, tier, i):
    pts = lambda k: sorted([{"at": rng.randrange(k + 1), "how": pick(rng, "deepcopy", "pickle", "pickle", "fresh", "fresh"),
                             "proto": rng.randint(0, 5), "fate": pick(rng, "train", "scribble", "crash", "crash", "idle", "keep"),
                             "fleet": chance(rng, 0.15), "twice": chance(rng, 0.2),
                             "step": rng.randint(1, 60), "s": rng.randrange(1 << 20)}
                            for _ in range(pick(rng, 1, 1, 2, 3, 4))], key=lambda p: p["at"])
    if chance(rng, 0.2):
        m = gen_mlp(rng)
        ops = [pick(rng, ["train", rng.randint(1, 2)], ["pu", rng.randrange(m["N"])], ["predict", rng.randrange(m["N"])],
                    ["update", rng.randrange(m["N"])]) for _ in range(rng.randint(1, 7))]
        return {"t": "mlp", "m": m, "ops": ops, "points": pts(len(ops))}
    rec = gen_data(rng, N=rng.randint(2, 50) if chance(rng, 0.8) else None)
    f = gen_filter(rng, rec, tame=True)
    if isinstance(f["w"], dict):
        f["w"] = "zeros"
    if f["k"] == "OCNLMS":
        f["p"]["mem"] = rng.randint(2, 12)
    batches, cnt, t = transport(rng, rec["N"], faults=rng.random() < 0.4)
    ops = feed_ops(rng, batches)
    p = pts(len(ops))
    if tier == "thorough" and i % 199 == 0 or i % 599 == 0:
        p = p[:1]
        p[0].update(how="process", proto=pick(rng, 2, 4, 5), fate=pick(rng, "train", "scribble", "crash"), fleet=False, twice=False)
    return {"t": "filter", "data": rec, "f": f, "ops": ops, "points": p, "t_sim": round(t, 4)}


def take(f, pt, spec=None, X=None):
    """A checkpoint, as something that does not hold on to the original.  A fleet
    is saved as one object, together with a sibling that has learned something else."""
    how, proto = pt["how"], pt["proto"]
    if pt.get("fleet") and spec is not None:
        sib = call("construct", build, spec)
        call("run", sib.run, X[:3, 0] * 2 + 1, X[:3] * 0.5)
        f = {"a": sib, "fleet": [f, sib], "m": f}
        if pt["s"] % 2:
            f = [sib, f["fleet"], f]
    if how == "deepcopy":
        return call("deepcopy", copy.deepcopy, f)
    return call("pickle", pickle.dumps, f, proto)


def restore(cp, pt, how=None):
    how = how or pt["how"]
    if how == "deepcopy":
        f = cp
    else:
        if how == "fresh":
            fresh_lib()
        f = call("unpickle", pickle.loads, cp)
    if isinstance(f, list):
        f = f[2]
    if isinstance(f, dict):
        f = f["fleet"][0]
    return f


def rehearse(f, pt, X):
    """The other restored object learns something else, or is overwritten."""
    if pt["s"] % 3:
        call("run", f.run, X[:4, 0] * -3 + 2, X[:4] * 2)
    else:
        ruin(f)


def ruin(f, depth=0):
    """Overwrite everything mutable that the original holds."""
    for k, v in list(vars(f).items()):
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = np.nan if v.dtype.kind == "f" else 0
        elif isinstance(v, list) and depth < 2:
            for u in v:
                if hasattr(u, "__dict__"):
                    ruin(u, depth + 1)
        elif isinstance(v, dict):
            v.clear()
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            setattr(f, k, 0)


CHILD = """
import sys, json, pickle, base64
import numpy as np
np.seterr(all="ignore")
from vsim.core import install_finder
install_finder()
from vsim.app import play, Obs
from vsim.world import make_data
q = json.load(sys.stdin)
X, d, _ = make_data(q["data"])
f = pickle.loads(base64.b64decode(q["cp"]))
f, o = play(f, q["ops"], X, d)
print(json.dumps({"y": {k: v for k, v in o.y.items()}, "e": o.e, "row": {k: v.tolist() for k, v in o.row.items()},
                  "after": {k: v.tolist() for k, v in o.after.items()}, "w": np.array(f.w).tolist()}))
"""


def in_process(case, cp, rest):
    from ..main import PY, VERIF, env
    r = subprocess.run([PY, "-W", "ignore", "-c", CHILD], input=json.dumps(
        {"data": case["data"], "ops": rest, "cp": base64.b64encode(cp).decode()}), capture_output=True, text=True,
        cwd=VERIF, env=env("77"), timeout=90)
    if r.returncode:
        raise Violation("unexpected-exception:restore-in-new-process", r.stderr[-600:])
    return json.loads(r.stdout)


def fate(f, pt, X, d, nxt, ctx):
    """What happens to the original after the checkpoint."""
    g = np.random.Generator(np.random.PCG64(pt["s"]))
    n = X.shape[1]
    k = int(g.integers(1, 5))
    TX, Td = g.normal(0, 1, (k, n)) * 3, g.normal(0, 1, k) * 3
    if pt["fate"] == "train":
        call("run", f.run, Td, TX)
        call("adapt", f.adapt, Td[0], TX[0])
    elif pt["fate"] == "scribble":
        ruin(f)
    elif pt["fate"] == "crash":
        # a whole run if the checkpoint is taken at the end
        ix = (nxt or {}).get("ix") or list(range(min(4, len(d))))
        _, ex, steps, where = trace_call(lambda: f.run(d[ix], X[ix]), (pt["step"], "interrupt"))
        ctx.count("fault:crash_in_call" if where else "crash_after_call")
        return where
    ctx.count("original_" + pt["fate"])
    return None


def run(case, ctx):
    if case["t"] == "mlp":
        return mlp(case, ctx)
    X, d, _ = make_data(case["data"])
    spec, ops = case["f"], case["ops"]
    ctx.simtime += case["t_sim"]
    f0 = call("construct", build, spec)
    g = guard_for(spec, np.array(f0.w), X, d, ops)
    f0, ref = play(f0, ops, X, d)
    f = call("construct", build, spec)
    got, pos = Obs(), 0
    todo = {}
    for p in case["points"]:
        todo.setdefault(min(p["at"], len(ops)), []).append(p)
    after_cp = None
    for k in range(len(ops) + 1):
        for pt in todo.get(k, []):
            nxt = ops[k] if k < len(ops) else None
            cp = take(f, pt, spec, X)
            where = fate(f, pt, X, d, nxt, ctx)
            after_cp = pos if after_cp is None else after_cp
            ctx.count("fault:restart_" + pt["how"])
            ctx.mark(spec["k"], ops[k - 1]["o"] if k else "new", nxt["o"] if nxt else "end", pt["how"], pt["fate"], where)
            if pt["fate"] == "keep":
                # saving must not disturb the original, nor the copy that is put to other use
                rehearse(restore(cp, pt, "pickle" if pt["how"] == "fresh" else None), pt, X)
                continue
            if pt["how"] == "process":
                o = in_process(case, cp, ops[k:])
                child = Obs()
                for nm in ("y", "e"):
                    setattr(child, nm, {int(q) + pos: v for q, v in o[nm].items()})
                for nm in ("row", "after"):
                    setattr(child, nm, {int(q) + pos: np.array(v) for q, v in o[nm].items()})
                against_obs(g, child, ref, ctx, "restored-in-new-process")
                f = restore(cp, pt, "pickle")
                continue
            old = f
            f = restore(cp, pt)
            if pt.get("twice") and pt["how"] != "deepcopy":
                rehearse(restore(cp, pt, "pickle"), pt, X)
            if pt["how"] == "deepcopy" and pt["fate"] == "train":
                # the original must not see what happens to the restored one either
                w_old = np.array(old.w)
                trial = call("deepcopy", copy.deepcopy, f)
                ruin(trial)
                if not np.array_equal(np.asarray(old.w), w_old, equal_nan=True):
                    raise Violation("shared-state", "overwriting the copy changed the original")
        if k < len(ops):
            f, pos = do(f, ops[k], X, d, pos, got)
    against_obs(g, got, ref, ctx, "restored")
    log_obs(ctx, got)
    ctx.nontrivial = after_cp is not None and after_cp < g.K


def mlp_op(f, op, X, D):
    if op[0] == "train":
        return flat(call("mlp.train", f.train, X, D, epochs=op[1])) + mlp_weights(f)
    if op[0] == "update":
        return flat(call("mlp.update", f.update, D[op[1]])) + mlp_weights(f)
    r = flat(call("mlp.predict", f.predict, X[op[1]]))
    if op[0] == "pu":
        r += flat(call("mlp.update", f.update, D[op[1]])) + mlp_weights(f)
    return r


def mlp(case, ctx):
    X, D = mlp_data(case["m"])
    ops = [o for o in case["ops"]]
    # an update needs a prediction first
    if ops and ops[0][0] == "update":
        ops[0] = ["pu", ops[0][1]]
    f0 = build_mlp(case["m"])
    ref = [mlp_op(f0, o, X, D) for o in ops]
    f = build_mlp(case["m"])
    todo = {}
    for p in case["points"]:
        todo.setdefault(min(p["at"], len(ops)), []).append(p)
    seen = False
    for k in range(len(ops) + 1):
        for pt in todo.get(k, []):
            cp = take(f, pt)
            where = None
            if pt["fate"] == "keep":
                rep = restore(cp, pt, "pickle" if pt["how"] == "fresh" else None)
                mlp_op(rep, ["train", 1], X * 2, D)
                ctx.count("original_keep")
                continue
            if pt["fate"] == "train":
                mlp_op(f, ["train", 1], X * 2, D)
            elif pt["fate"] == "scribble":
                ruin(f)
            elif pt["fate"] == "crash":
                _, _, _, where = trace_call(lambda: f.train(X, D, epochs=1), (pt["step"], "interrupt"))
                ctx.count("fault:crash_in_call" if where else "crash_after_call")
            ctx.count("fault:restart_" + pt["how"])
            ctx.mark("mlp", case["m"]["layers"], ops[k - 1][0] if k else "new", pt["how"], pt["fate"], where)
            f = restore(cp, pt)
            if pt.get("twice") and pt["how"] != "deepcopy":
                mlp_op(restore(cp, pt, "pickle"), ["train", 1], X * 2, D)
            seen = True
        if k < len(ops):
            r = mlp_op(f, ops[k], X, D)
            for u, v in zip(r, ref[k]):
                if not same(u, v, rtol=1e-8):
                    raise Violation("restored:mlp", f"operation {k} {ops[k]}: {describe(u)} after restore, {describe(v)} "
                                                    f"uninterrupted ({maxdiff(u, v)})")
            ctx.log(*r)
            ctx.nontrivial = ctx.nontrivial or seen


def simplify(case):
    if case["t"] == "filter":
        yield from shrink_ops(case)
    for k, p in enumerate(case["points"]):
        for alt in ({"fleet": False}, {"twice": False}, {"how": "deepcopy"}, {"how": "pickle"}, {"fate": "idle"}, {"fate": "scribble"}, {"step": p["step"] // 2 or 1}):
            c = dict(p, **alt)
            if c != p and not (p["how"] in ("deepcopy", "pickle") and "how" in alt and alt["how"] == "pickle"):
                yield dict(case, points=case["points"][:k] + [c] + case["points"][k + 1:])
