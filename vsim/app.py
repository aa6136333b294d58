"""The consumer application: executes operations on a real filter and records
what it can observe, by position in the delivered sample sequence."""
import array
import copy
import pickle

import numpy as np

from .core import Violation, call, describe, maxdiff, same
from .models import Guard
from .world import build, expand


class Obs:
    """Everything observed: y/e/W rows by position, weights after each position."""

    def __init__(self):
        self.y, self.e, self.row, self.after, self.pred = {}, {}, {}, {}, []


FORMS = ["swapped", "readonly", "reversed", "unaligned", "subclass"]


class Recording(np.ndarray):
    """What a measurement library hands out: an array with a name."""


def form(a, how):
    """The same values in another memory representation."""
    if how == "swapped":                             # byte order of the network
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "readonly":
        a = np.array(a)
        a.flags.writeable = False
        return a
    if how == "reversed":                            # negative strides
        return np.array(a[::-1])[::-1] if a.ndim == 1 else np.array(a[::-1, ::-1])[::-1, ::-1]
    if how == "unaligned":                           # a packed record of a file
        b = np.zeros(a.nbytes + 1, dtype=np.uint8)
        v = b[1:].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    return np.array(a).view(Recording)


def arr(X, ix, how="array"):
    """The rows of a chunk in the container the driver uses."""
    if how == "tuple":
        return tuple(tuple(float(v) for v in X[i]) for i in ix)
    if how == "buffer":
        return [array.array("d", X[i]) for i in ix]
    if how in FORMS:
        return form(X[list(ix)], how)
    if how == "list":
        return [[float(v) for v in X[i]] for i in ix]
    if how == "fortran":
        return np.asfortranarray(X[list(ix)])
    if how.startswith("dt:"):
        return cast(np.array(X[list(ix)]), how[3:])
    if how == "view":
        big = np.zeros((len(ix) * 2, X.shape[1] * 2))
        big[::2, ::2] = X[list(ix)]
        return big[::2, ::2]
    return np.array(X[list(ix)])


def cast(v, dt):
    """The same values in the converter's type, where it can hold them."""
    t = np.dtype(dt.lstrip(">"))
    if dt[0] == ">":
        t = t.newbyteorder(">")
    if t.kind != "f" and v.size and not (np.all(v == np.round(v)) and np.iinfo(t).min <= v.min() and v.max() <= np.iinfo(t).max):
        return v
    c = v.astype(t)
    return c if np.array_equal(c, v) else v


def one(X, i, how):
    """One input vector."""
    if how in FORMS:
        return form(np.array(X[i]), how)
    return arr(X, [i], how if how[:3] == "dt:" or how in ("list", "tuple", "buffer") else "array")[0]


def vec(d, ix, how="array"):
    if how == "tuple":
        return tuple(float(d[i]) for i in ix)
    if how == "buffer":
        return array.array("d", d[list(ix)])
    if how in FORMS:
        return form(d[list(ix)], how)
    if how == "list":
        return [float(d[i]) for i in ix]
    if how.startswith("dt:"):
        return cast(np.array(d[list(ix)]), how[3:])
    if how == "view":
        big = np.zeros(len(ix) * 3)
        big[::3] = d[list(ix)]
        return big[::3]
    return np.array(d[list(ix)])


def target(d, i, how):
    """One target, as a scalar of the driver."""
    v = d[i]
    if how in ("list", "buffer"):                    # a counter or a register: whole numbers come as int
        return int(v) if np.isfinite(v) and v == np.round(v) and abs(v) < 1 << 50 else float(v)
    if how == "tuple":
        return float(v)
    if how == "fortran":
        return np.array(v)
    return vec(d, [i], how)[0]


def check_shapes(k, n, y, e, W):
    if np.shape(y) != (k,) or np.shape(e) != (k,) or np.shape(W) != (k, n):
        raise Violation("result-shape", f"run over {k} samples of size {n} returned {np.shape(y)}, {np.shape(e)}, "
                                        f"{np.shape(W)}")


def do(f, op, X, d, pos, obs, how="array"):
    """Execute one operation; returns (filter, position after it)."""
    o = op["o"]
    n = X.shape[1]
    if o == "run":
        y, e, W = call("run", f.run, vec(d, op["ix"], how), arr(X, op["ix"], how))
        check_shapes(len(op["ix"]), n, y, e, W)
        for j in range(len(op["ix"])):
            obs.y[pos + j], obs.e[pos + j], obs.row[pos + j] = float(y[j]), float(e[j]), np.array(W[j])
        pos += len(op["ix"])
    elif o == "pre":
        m = int(len(op["ix"]) * op["nt"])
        kw = {"ntrain": op["nt"], "epochs": op["ep"]}
        if len(op["ix"]) % 2:                       # rely on the documented defaults
            kw = {q: v for q, v in kw.items() if v != {"ntrain": 0.5, "epochs": 1}[q]}
        y, e, W = call("pretrained_run", f.pretrained_run, vec(d, op["ix"], how), arr(X, op["ix"], how), **kw)
        r = len(op["ix"]) - m
        check_shapes(r, n, y, e, W)
        pos += m * op["ep"]
        for j in range(r):
            obs.y[pos + j], obs.e[pos + j], obs.row[pos + j] = float(y[j]), float(e[j]), np.array(W[j])
        pos += r
    elif o == "adapt":
        for i in op["ix"]:
            call("adapt", f.adapt, target(d, i, how), one(X, i, how))
            pos += 1
            obs.after[pos] = np.array(f.w)
    elif o == "rt":
        for i in op["ix"]:
            x = one(X, i, how)
            obs.y[pos] = float(call("predict", f.predict, x))
            call("adapt", f.adapt, target(d, i, how), x)
            pos += 1
            obs.after[pos] = np.array(f.w)
    elif o == "pred":
        for _ in range(op["r"]):
            obs.pred.append((pos, op["i"], float(call("predict", f.predict, one(X, op["i"], how)))))
    elif o == "restart":
        if op["how"] == "deepcopy":
            f = call("deepcopy", copy.deepcopy, f)
        else:
            f = call("pickle", lambda: pickle.loads(pickle.dumps(f, op["proto"])))
    else:
        raise ValueError(o)
    obs.after[pos] = np.array(f.w)
    if np.shape(f.w) != (n,):
        raise Violation("weights-shape", f"weights have shape {np.shape(f.w)} for a filter of size {n}")
    return f, pos


def play(f, ops, X, d, how="array"):
    obs = Obs()
    pos = 0
    for op in ops:
        f, pos = do(f, op, X, d, pos, obs, how)
    return f, obs


def single_run(f, seq, X, d):
    obs = Obs()
    if seq:
        do(f, {"o": "run", "ix": list(seq)}, X, d, 0, obs)
        for k, r in obs.row.items():
            obs.after[k] = r
    else:
        obs.after[0] = np.array(f.w)
    return f, obs


def compare(g, got, want_y, want_e, want_w, what, ctx, factor=1.0):
    """Observations against reference values by position, within the guard's
    horizon.  want_*: position -> value or None when unknown."""
    K = g.K
    n = 0
    for src, want, tol, name in ((got.y, want_y, g.ty, "output"), (got.e, want_e, g.ty, "error")):
        for k, v in src.items():
            if k >= K:
                continue
            w = want(k)
            if w is None:
                continue
            n += 1
            if not abs(v - w) <= factor * tol[k]:
                raise Violation(f"{what}:{name}", f"sample {k}: {name} {v!r}, expected {w!r} "
                                                  f"(tolerance {factor * tol[k]:.3g})")
    for src, name in ((got.row, "weight-history row"), (got.after, "weights")):
        for k, v in src.items():
            if k > K:
                continue
            w = want_w(k)
            if w is None:
                continue
            n += 1
            if not np.all(np.abs(v - w) <= factor * g.tw[k]):
                raise Violation(f"{what}:{name.split()[0]}",
                                f"{name} before sample {k}: {describe(v)}, expected {describe(w)} "
                                f"(max difference {maxdiff(v, w)}, tolerance {factor * g.tw[k]:.3g})")
    ctx.count("compared_values", n)
    ctx.count("samples_in_horizon", K)
    ctx.count("samples_beyond_horizon", len(g.y) - K)
    return n


def against_model(g, obs, ctx, what="law"):
    return compare(g, obs, lambda k: g.y[k], lambda k: g.e[k], lambda k: g.W[k], what, ctx)


def against_obs(g, obs, ref, ctx, what):
    return compare(g, obs, ref.y.get, ref.e.get, lambda k: ref.after.get(k, ref.row.get(k)), what, ctx, 2.0)


def guard_for(spec, w0, X, d, ops):
    return Guard(spec, w0, X, d, expand(ops))


def log_obs(ctx, obs):
    for src in (obs.y, obs.e, obs.after):
        for k in sorted(src):
            ctx.log(k, src[k])


def fresh(case, **kw):
    return build(case["f"], **kw)


def eq(a, b, what, detail="", rtol=1e-9):
    if not same(a, b, rtol=rtol):
        raise Violation(what, f"{detail} {describe(a)} vs {describe(b)} (max difference {maxdiff(a, b)})")
