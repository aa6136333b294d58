"""C04: caller-owned arrays and returned results are never shared with the library."""
import json
import random

import numpy as np

from ..app import Obs, against_obs, check_shapes, guard_for, log_obs, play
from ..core import Violation, call, chance, describe, lib, maxdiff, pick, same
from ..programs import build_mlp, ODD, call_args, flat, fn_of, gen_call, gen_mlp, mlp_data, mlp_weights
from ..world import CLASSES, build, feed_ops, gen_data, gen_filter, make_data, shrink_ops, transport

ID = "C04"
CASES = {"quick": 12000, "thorough": 400000}
LISTS = ["ops", "calls"]
RULE = ("One run = the same operations executed by a hygienic client (fresh arrays, never touched again) and by a hostile "
        "owner (one buffer reused for all samples, buffers overwritten after or between calls, read-only, strided and "
        "Fortran-ordered inputs, shared initial-weight arrays, other objects working in between); inputs are compared "
        "after every call and every earlier result again at the end. Non-trivial: at least two calls compared.")
REAL = ["the whole of padasip", "numpy", "scipy.stats (ESE)"]
STUB = ["owner of the buffers", "sample source and transport"]
ASSUME = ["values are compared up to the drift between the double and extended precision reference model",
          "writing into arrays the library returned is not part of the property and not done"]
COVER = "hostile situations (object, operation kinds, layouts and overwrite actions)"


def gen(rng, tier, i):
    t = pick(rng, "filter", "filter", "filter", "filter", "fn", "fn", "mlp")
    if t == "filter":
        long = chance(rng, 0.04)
        rec = gen_data(rng, N=rng.randint(61, 240) if long else rng.randint(2, 60) if chance(rng, 0.85) else None)
        f = gen_filter(rng, rec, tame=True)
        if isinstance(f["w"], dict):
            f["w"] = "zeros"
        if f["k"] == "OCNLMS":
            f["p"]["mem"] = rng.randint(2, 12)
        batches, cnt, tt = transport(rng, rec["N"], faults=rng.random() < 0.4)
        ops = feed_ops(rng, batches)
        if long or chance(rng, 0.4):               # equal chunks: results of equal shape
            m = rng.randint(1, 6)
            if rec["N"] > 20 and chance(rng, 0.5):
                m = max(1, rec["N"] // 2) if chance(rng, 0.5) else rec["N"]
            ops = [{"o": "run", "ix": list(range(a, min(a + m, rec["N"])))} for a in range(0, rec["N"], m)][:20]
            if len(ops) < 3:
                ops = ops + [dict(o) for o in ops]
        return {"t": t, "data": rec, "f": f, "ops": ops, "hs": rng.randrange(1 << 30), "twin": chance(rng, 0.5),
                "t_sim": round(tt, 4)}
    if t == "mlp":
        m = gen_mlp(rng)
        ops = [pick(rng, ["train", rng.randint(1, 2), chance(rng, 0.3)], ["run"], ["test"],
                    ["pu", rng.randrange(m["N"])], ["pu", rng.randrange(m["N"])], ["predict", rng.randrange(m["N"])])
               for _ in range(rng.randint(2, 8))]
        return {"t": t, "m": m, "ops": ops, "hs": rng.randrange(1 << 30)}
    calls = [gen_call(rng) for _ in range(rng.randint(1, 6))]
    for c in calls:
        if chance(rng, 0.2):
            c["odd"] = pick(rng, *ODD)
    if chance(rng, 0.4):                   # the same call with other data: results of equal shape
        for c in list(calls):
            if chance(rng, 0.5) and "s" in c and "poke" not in c:
                calls.insert(rng.randrange(len(calls) + 1), dict(json.loads(json.dumps(c)), s=rng.randrange(1 << 30)))
    return {"t": t, "calls": calls, "hs": rng.randrange(1 << 30)}


# ------------------------------------------------------------------ the hostile owner
class Owner:
    """Hands out arrays with the wanted values, remembers what it handed out and
    overwrites it later."""

    def __init__(self, seed, ctx):
        self.r = random.Random(seed)
        self.g = np.random.Generator(np.random.PCG64(seed))
        self.ctx = ctx
        self.kept = []       # (result object, copy at the time of return, name)
        self.pool, self.used = {}, set()

    def give(self, v, how=None):
        """An array with the values of v, in some layout."""
        v = np.asarray(v)
        how = how or self.r.choice(["plain", "plain", "pool", "pool", "readonly", "strided", "fortran", "view"])
        self.ctx.count("layout_" + how)
        if how == "pool":
            key = (v.shape, v.dtype.str)
            while key in self.used:            # two arguments of one call are two buffers
                key += (1,)
            self.used.add(key)
            b = self.pool.get(key)
            if b is None:
                b = self.pool[key] = np.empty(v.shape, v.dtype)
            b[...] = v
        elif how == "strided":
            big = np.zeros(tuple(2 * s for s in v.shape), v.dtype)
            b = big[tuple(slice(None, None, 2) for _ in v.shape)]
            b[...] = v
        elif how == "fortran":
            b = np.array(v, order="F")
        elif how == "view":
            big = np.zeros((v.shape[0] + 2,) + v.shape[1:], v.dtype)
            b = big[1:-1]
            b[...] = v
        else:
            b = np.array(v)
            if how == "readonly":
                b.setflags(write=False)
        return b

    def unchanged(self, b, v, what):
        if isinstance(b, np.ndarray) and not np.array_equal(b, np.asarray(v), equal_nan=b.dtype.kind == "f"):
            raise Violation("input-modified", f"{what}: {describe(b)} instead of {describe(v)}")
        if isinstance(b, list) and repr(b) != repr(v):
            raise Violation("input-modified", f"{what}: {b} instead of {v}")

    def spoil(self, b):
        """The owner reuses its buffer."""
        self.used.clear()
        if not isinstance(b, np.ndarray):
            return
        act = self.r.choice(["nan", "huge", "zero", "noise", "flip", "keep", "noise", "neg"])
        self.ctx.count("fault:overwrite_" + act)
        if act == "keep":
            return
        ro = not b.flags.writeable
        if ro:
            b.setflags(write=True)
        if b.dtype.kind in "US":
            b[...] = "zz"[:1]
        elif b.dtype.kind == "f":
            if act == "nan":
                b[...] = np.nan
            elif act == "huge":
                b[...] = 1e30
            elif act == "zero":
                b[...] = 0
            elif act == "flip":
                b[...] = np.array(b[::-1])
            elif act == "neg":
                b[...] = -np.array(b)
            else:
                b[...] = self.g.normal(0, 5, b.shape)
        else:
            b[...] = 0

    def keep(self, r, name):
        for k, v in enumerate(r if isinstance(r, tuple) else (r,)):
            if isinstance(v, np.ndarray):
                self.kept.append((v, np.array(v), f"{name}[{k}]"))

    def recheck(self, when):
        for v, c, name in self.kept:
            if v.shape != c.shape or not np.array_equal(v, c, equal_nan=v.dtype.kind in "fc"):
                raise Violation("result-changed", f"{name} was {describe(c)} when returned and is {describe(v)} {when}")
        self.ctx.count("results_rechecked", len(self.kept))


def run(case, ctx):
    own = Owner(case["hs"], ctx)
    if case["t"] == "filter":
        filt(case, ctx, own)
    elif case["t"] == "mlp":
        mlp(case, ctx, own)
    else:
        fns(case, ctx, own)
    own.recheck("at the end of the run")


def filt(case, ctx, own):
    X, d, _ = make_data(case["data"])
    spec, ops, n = case["f"], case["ops"], case["f"]["n"]
    ctx.simtime += case["t_sim"]
    f0 = call("construct", build, spec)
    w0 = np.array(f0.w)
    g = guard_for(spec, w0, X, d, ops)
    f0, ref = play(f0, ops, X, d)
    # the hostile session
    pa = lib()
    warr = own.give(w0)
    f = call("construct", getattr(pa.filters, CLASSES[spec["k"]]), n, w=warr, **spec["p"])
    twin = None
    if case["twin"]:
        twin = call("construct", getattr(pa.filters, CLASSES[spec["k"]]), n, w=warr, **spec["p"])
    own.unchanged(warr, w0, "initial weights after construction")
    if own.r.random() < 0.5:
        own.spoil(warr)
    got, pos = Obs(), 0
    trained = False
    xb, calls = np.zeros(n), 0
    dt = case["data"].get("dt") or ("int32" if case["data"]["kind"] == "int" and case["hs"] % 2 else "float64")
    typed = (lambda v: v.astype(dt)) if np.array_equal(X.astype(dt), X) and case["hs"] % 3 else (lambda v: v)
    for op in ops:
        o = op["o"]
        if twin is not None and own.r.random() < 0.4:
            trained = True
            k = own.r.randint(1, 3)
            TX, Td = own.g.normal(0, 1, (k, n)) * case["data"]["scale"], own.g.normal(0, 1, k)
            if own.r.random() < 0.5:
                own.keep(call("run", twin.run, Td, TX), "run of another filter")
            else:
                call("adapt", twin.adapt, Td[0], TX[0])
            ctx.count("fault:other_object_active")
        if o in ("run", "pre"):
            vx, vd = X[op["ix"]], d[op["ix"]]
            if own.r.random() < 0.1:
                bx, bd = vx.tolist(), vd.tolist()
            else:
                vx = typed(vx)                     # what a converter delivers
                bx, bd = own.give(vx), own.give(vd)
            if o == "run":
                r = call("run", f.run, bd, bx)
            else:
                r = call("pretrained_run", f.pretrained_run, bd, bx, ntrain=op["nt"], epochs=op["ep"])
            own.unchanged(bx, vx if isinstance(bx, np.ndarray) else vx.tolist(), f"{o}: input matrix")
            own.unchanged(bd, vd if isinstance(bd, np.ndarray) else vd.tolist(), f"{o}: targets")
            own.keep(r, f"result of {o} at sample {pos}")
            m = int(len(vd) * op["nt"]) * op["ep"] if o == "pre" else 0
            L = len(r[0])
            check_shapes(len(vd) - (int(len(vd) * op["nt"]) if o == "pre" else 0), n, *r)
            for j in range(L):
                p = pos + m + j
                got.y[p], got.e[p], got.row[p] = float(r[0][j]), float(r[1][j]), np.array(r[2][j])
            pos += m + L
            own.spoil(bx)
            own.spoil(bd)
        elif o == "pred":
            v = typed(np.array(X[op["i"]]))
            b = own.give(v)
            call("predict", f.predict, b)
            own.unchanged(b, v, "predict: input")
            own.spoil(b)
        else:
            for i in op["ix"]:
                b = xb if own.r.random() < 0.6 else own.give(typed(X[i]))
                b.setflags(write=True)
                b[:] = X[i]
                if o == "rt":
                    got.y[pos] = float(call("predict", f.predict, b))
                call("adapt", f.adapt, d[i], b)
                own.unchanged(b, X[i], "adapt: input")
                pos += 1
                if own.r.random() < 0.6:
                    own.spoil(b)
                got.after[pos] = np.array(f.w)
                calls += 1
        got.after[pos] = np.array(f.w)
        calls += 1
    against_obs(g, got, ref, ctx, "aliasing")
    if twin is not None:
        # a filter made from the same array that never trained still has its weights
        if not trained and not np.array_equal(np.asarray(twin.w), w0):
            raise Violation("aliasing:initial-weights", f"an untrained filter made from the same array has {twin.w}, "
                                                        f"not {w0}")
    ctx.nontrivial = calls > 1
    ctx.mark(spec["k"], [o["o"] for o in ops][:12], case["hs"] % 1000)
    log_obs(ctx, got)


def mlp(case, ctx, own):
    m = case["m"]
    X, D = mlp_data(m)
    ref = session(case, X, D, None)
    got = session(case, X, D, own)
    for k, (a, b) in enumerate(zip(got, ref)):
        for u, v in zip(a, b):
            if not same(u, v, rtol=1e-8):
                raise Violation("aliasing:mlp", f"operation {k} {case['ops'][min(k, len(case['ops']) - 1)]}: {describe(u)} "
                                                f"with a hostile owner, {describe(v)} otherwise ({maxdiff(u, v)})")
            ctx.log(u)
    ctx.nontrivial = len(case["ops"]) > 1
    ctx.mark("mlp", m["layers"], m["out"], case["ops"])


def session(case, X, D, own):
    f = build_mlp(case["m"])
    np.random.seed(777)
    out = []

    def give(v):
        return np.array(v) if own is None else own.give(v)

    def after(b, v, what):
        if own is not None:
            own.unchanged(b, v, what)
            own.spoil(b)
    for op in case["ops"]:
        if op[0] == "train":
            bx, bd = give(X), give(D)
            r = call("mlp.train", f.train, bx, bd, epochs=op[1], shuffle=op[2])
            after(bx, X, "train: inputs")
            after(bd, D, "train: targets")
        elif op[0] == "run":
            bx = give(X)
            r = call("mlp.run", f.run, bx)
            after(bx, X, "run: inputs")
        elif op[0] == "test":
            bx, bd = give(X), give(D)
            r = call("mlp.test", f.test, bx, bd)
            after(bx, X, "test: inputs")
            after(bd, D, "test: targets")
        else:
            bx = give(X[op[1]])
            r = call("mlp.predict", f.predict, bx)
            after(bx, X[op[1]], "predict: input")
            if own is not None:
                own.keep(r, "mlp predict")
            if op[0] == "pu":
                bd = give(D[op[1]]) if case["m"]["out"] > 1 else D[op[1]]
                out.append(flat(r))
                r = call("mlp.update", f.update, bd)
                if case["m"]["out"] > 1:
                    after(bd, D[op[1]], "update: target")
        if own is not None:
            own.keep(r, "mlp " + op[0])
        out.append(flat(r) + mlp_weights(f))
    return out


def attempt(odd, fn, *a, **kw):
    """The call; for data that the function may refuse, nothing if it does."""
    if not odd:
        return call(fn, fn_of(fn), *a, **kw)
    try:
        return fn_of(fn)(*a, **kw)
    except Exception:  # noqa
        return ()


def fns(case, ctx, own):
    for c in case["calls"]:
        a, kw = call_args(c)
        odd = c.get("odd")
        r0 = flat(attempt(odd, c["fn"], *a, **kw))
        a1, kw1 = call_args(c)
        vals = [np.array(v) if isinstance(v, np.ndarray) else v for v in a1]
        kvals = {k: (np.array(v) if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v))
                 for k, v in kw1.items()}
        for rep in range(2):
            b = [own.give(v) if isinstance(v, np.ndarray) else v for v in vals]
            kb = {k: (own.give(v) if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v))
                  for k, v in kvals.items()}
            if c["fn"] in ("standardize", "standardize_back", "input_from_history", "MAE", "MSE", "RMSE", "logSE",
                           "get_mean_error") and own.r.random() < 0.15:
                b = [v.tolist() if isinstance(v, np.ndarray) else v for v in b]
            r = attempt(odd, c["fn"], *b, **kb)
            for k, v in enumerate(vals):
                own.unchanged(b[k], v if isinstance(b[k], np.ndarray) or not isinstance(v, np.ndarray) else v.tolist(),
                              f"{c['fn']}: argument {k}")
            for k, v in kvals.items():
                own.unchanged(kb[k], v, f"{c['fn']}: argument {k}")
            own.keep(r if isinstance(r, tuple) else (r,), c["fn"])
            for v in list(b) + list(kb.values()):
                own.spoil(v)
            own.recheck(f"after the arguments of {c['fn']} were overwritten")
            for u, v in zip(flat(r), r0):
                if c["fn"] == "filter_data" or odd:          # rounding decides what comes out of such data
                    continue
                if c["fn"] not in ("LDA", "PCA", "LDA_discriminants", "PCA_components") and not same(u, v, rtol=1e-9):
                    raise Violation("aliasing:function", f"{c['fn']}: {describe(u)}, with private arrays {describe(v)}")
                ctx.log(u)
            ctx.count("fn_" + c["fn"])
        ctx.mark(c["fn"], sorted(c))
    ctx.nontrivial = True


def simplify(case):
    if case["t"] == "filter":
        yield from shrink_ops(case)
        if case["twin"]:
            yield dict(case, twin=False)
