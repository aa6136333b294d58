"""Client programs: what a user of the library does, as data.  A program is a
filter session, a network session or a list of calls of stateless functions."""
import json
import sys

import numpy as np

from .core import chance, lib, pick, r6
from .world import build, gen_data, gen_filter, make_data

FNS = ["learning_entropy", "ELBND", "ESE", "standardize", "standardize_back", "input_from_history", "PCA",
       "PCA_components", "LDA", "LDA_discriminants", "MAE", "MSE", "RMSE", "logSE", "get_mean_error", "filter_data"]
INVALID = ["PCA", "LDA", "MSE", "RMSE", "get_mean_error", "input_from_history", "filter_data", "standardize", "standardize_back",
           "ELBND", "get_filter", "AdaptiveFilter", "FilterLMS", "FilterAP", "NetworkMLP"]
POTS = ["10%", "30%", "sqrt", "log10", "35%", "log10log10"]


# ------------------------------------------------------------------ stateless calls
def gen_call(rng, fn=None, ese=0.03):
    fn = fn or pick(rng, *[f for f in FNS if f != "ESE"])
    if chance(rng, ese):
        fn = "ESE"
    c = {"fn": fn, "s": rng.randrange(1 << 30)}
    if fn == "invalid":                # a call that cannot succeed
        c["fn"] = "invalid:" + pick(rng, *INVALID)
        c["N"], c["n"] = rng.randint(4, 12), rng.randint(1, 4)
        return c
    big = chance(rng, 0.03)            # a size at which an implementation might take another way
    if fn in ("learning_entropy", "ELBND"):
        c["N"], c["n"] = rng.randint(6, 40), rng.randint(1, 5)
        if big:
            c["N"], c["n"] = rng.randint(100, 600), pick(rng, 1, 3, 9, 17, 40)
        if fn == "learning_entropy":
            c["m"] = rng.randint(2, max(2, c["N"] - 3))
            c["order"] = rng.randint(1, 3)
            if chance(rng, 0.6):
                c["alpha"] = [r6(rng.uniform(0.3, 8)) for _ in range(rng.randint(1, 5))]
        else:
            c["function"] = pick(rng, "max", "sum")
    elif fn == "ESE":
        c["window"] = rng.randint(22, 40)
        c["N"], c["n"] = c["window"] + rng.randint(1, 4), 1
        c["pot"] = pick(rng, *POTS[:4])
    elif fn in ("standardize", "standardize_back"):
        c["N"] = rng.randint(1000, 9000) if big else rng.randint(2, 40)
        c["offset"] = r6(rng.gauss(0, 3)) if chance(rng, 0.6) or fn == "standardize_back" else None
        c["scale"] = r6(rng.uniform(0.1, 4)) if chance(rng, 0.6) or fn == "standardize_back" else None
        if chance(rng, 0.2):                 # values at which there is nothing to do
            c["offset"], c["scale"] = pick(rng, (0, 1), (0.0, 1.0), (0, 2.0), (1.5, 1), (0.0, None), (None, 1.0), (0, -1))
            if fn == "standardize_back":
                c["offset"], c["scale"] = c["offset"] or 0.0, c["scale"] or 1.0
    elif fn == "input_from_history":
        c["n"] = rng.randint(1, 8) if not big else rng.randint(9, 70)
        c["N"] = c["n"] + (rng.randint(100, 700) if big else rng.randint(1, 30))
        c["bias"] = chance(rng, 0.5)
    elif fn in ("PCA", "PCA_components", "LDA", "LDA_discriminants"):
        c["N"], c["n"] = rng.randint(18, 50), rng.randint(2, 5)
        if big:
            c["N"], c["n"] = rng.randint(60, 200), rng.randint(6, 12)
        c["k"] = rng.randint(1, c["n"] - 1)
        c["cl"] = rng.randint(2, 3)
    elif fn in ("MAE", "MSE", "RMSE", "logSE", "get_mean_error"):
        c["N"] = rng.randint(1000, 9000) if big else rng.randint(1, 40)
        c["two"] = chance(rng, 0.5)
        c["same"] = chance(rng, 0.15)        # some errors are exactly zero
        c["function"] = pick(rng, "MAE", "MSE", "RMSE")
    elif fn == "filter_data":
        rec = gen_data(rng, n=rng.randint(1, 4) if not big else pick(rng, 8, 17, 33), N=rng.randint(2, 12))
        f = gen_filter(rng, rec, tame=True)
        if isinstance(f["w"], dict):
            f["w"] = "zeros"
        c["data"], c["f"] = rec, f
    if chance(rng, 0.15):              # rely on documented defaults
        c["dflt"] = True
    return c


def similar_call(c, rng):
    """A call of the same function that shares most of its parameters."""
    c = json.loads(json.dumps(c))
    keys = [k for k in ("s", "m", "order", "alpha", "function", "offset", "scale", "n", "bias", "k", "two", "pot") if k in c]
    k = rng.choice(keys + ["poke", "poke"])
    if k == "s":
        c["s"] ^= 1
    elif k == "poke":
        c["poke"] = rng.randint(1, 1 << 20)
    elif k == "function":
        c[k] = {"max": "sum", "sum": "max", "MAE": "MSE", "MSE": "RMSE", "RMSE": "MAE"}[c[k]]
    elif k in ("bias", "two"):
        c[k] = not c[k]
    elif k == "alpha":
        c[k] = [v * rng.choice([0.5, 1.5]) for v in c[k]]
    elif k in ("offset", "scale"):
        c[k] = 2.5 if c[k] is None else c[k] * 2
    elif k == "pot":
        c[k] = "sqrt" if c[k] != "sqrt" else "10%"
    elif k == "k":
        c[k] = max(1, c[k] - 1)
    elif k in ("m", "n") and c[k] > 2:
        c[k] -= 1
    else:
        c["s"] ^= 1
    return c


def labels_of(c, g):
    names = np.array(["1", "a", "bb"])[:c["cl"]]
    lab = names[np.arange(c["N"]) % c["cl"]]
    g.shuffle(lab)
    return lab


DFLT = {"learning_entropy": ("m", "order"), "ELBND": ("function",), "ESE": ("pot_method",),
        "input_from_history": ("bias",)}


ODD = ["const", "zeros", "dupcol", "duprow", "one", "few", "ties", "huge", "nan", "blocks"]


def oddly(args, how):
    """The same call for data that an implementation might treat as a special case."""
    out = []
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.ndim and a.size:
            if how == "const":
                a = np.full(a.shape, a.flat[0])
            elif how == "zeros":
                a = np.zeros(a.shape)
            elif how == "dupcol" and a.ndim == 2:
                a[:, -1] = a[:, 0]
            elif how == "duprow":
                a[len(a) // 2:] = a[:1]
            elif how == "ties":
                a = np.round(a)
            elif how == "huge":
                a = a * 1e200
            elif how == "nan":
                a[len(a) // 2] = np.nan
            elif how == "blocks":
                a[:] = np.sign(a)
        if isinstance(a, np.ndarray) and a.ndim and how in ("one", "few"):
            a = a[:1] if how == "one" else a[:3]
        out.append(a)
    return out


def call_args(c):
    """(args, kwargs) with fresh arrays for one call record.  `poke` changes a
    single value somewhere inside each series or matrix."""
    a, kw = _call_args(c)
    if c.get("dflt"):
        for k in DFLT.get(c["fn"], ()):
            if not (k == "m" and c["N"] < 12):
                kw.pop(k, None)
        if c["fn"] in ("PCA", "LDA"):
            a = a[:-1]
    if c.get("odd"):
        a = oddly(a, c["odd"])
    if c.get("poke"):
        for v in a:
            if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size > 2:
                v.flat[1 + c["poke"] % (v.size - 2)] += 1.5
    if c.get("ac"):
        a = [formed(v, c["ac"]) for v in a]
    return a, kw


AS_LIST = ("learning_entropy", "ELBND", "standardize", "standardize_back", "input_from_history", "MAE", "MSE", "RMSE", "logSE",
           "get_mean_error", "filter_data")


def gen_form(rng, c):
    """The container in which the data of a call arrive."""
    if c["fn"] in AS_LIST:
        c["ac"] = pick(rng, "list", "tuple", "fortran", "readonly") if c.get("odd") else \
            pick(rng, "list", "list", "tuple", "int", "f32", "fortran", "readonly")
    return c


def formed(v, how):
    if not isinstance(v, np.ndarray) or v.ndim == 0:
        return v
    if how == "list":
        return v.tolist()
    if how == "tuple":
        return tuple(v.tolist())
    if how == "fortran":
        return np.array(v, order="F")
    if how == "readonly":
        v = np.array(v)
        v.setflags(write=False)
        return v
    if v.dtype.kind == "f":
        return np.round(4 * v).astype("int32") if how == "int" else v.astype("float32")
    return v


def invalid_args(fn, g, N, n):
    """Arguments every version of the function has to reject."""
    x, s = g.normal(0, 1, (N, n)), g.normal(0, 1, N)
    return {"PCA": ([x, n + 1], {}), "LDA": ([x, np.arange(N) % 2, n + 1], {}), "MSE": ([s, s[1:]], {}), "RMSE": ([s[2:], s], {}),
            "get_mean_error": ([s], {"function": "median"}), "input_from_history": ([s, int(g.integers(-2, 1))], {}),
            "filter_data": ([s, x], {"model": "kalman"}), "standardize": ([s], {"offset": "left"}),
            "standardize_back": ([s, 0.5, "wide"], {}), "ELBND": ([x, s], {"function": "mean"}), "get_filter": (["lsm"], {}),
            "AdaptiveFilter": ([], {"model": "rls", "n": n, "mu": 0.9, "w": "ones"}), "FilterLMS": ([n, 0.1], {"w": [1.0] * (n + 1)}),
            "FilterAP": ([n, 0.1], {"w": "nil"}), "NetworkMLP": ([[2], n], {"mu": "fast"})}[fn]


def _call_args(c):
    fn = c["fn"]
    g = np.random.Generator(np.random.PCG64(c["s"]))
    if fn.startswith("invalid:"):
        return invalid_args(fn[8:], g, c["N"], c["n"])
    if fn == "learning_entropy":
        w = np.cumsum(g.normal(0, 1, (c["N"], c["n"])), axis=0)
        kw = {"m": c["m"], "order": c["order"]}
        if "alpha" in c:
            kw["alpha"] = np.array(c["alpha"]) if c["s"] % 3 == 0 else list(c["alpha"])
        return [w], kw
    if fn == "ELBND":
        return [np.cumsum(g.normal(0, 1, (c["N"], c["n"])), axis=0), g.normal(0, 1, c["N"])], \
            {"function": c["function"]}
    if fn == "ESE":
        w = np.cumsum(g.standard_t(3, (c["N"], c["n"])), axis=0)
        return [w], {"window": c["window"], "pot_method": c["pot"]}
    if fn == "standardize":
        kw = {}
        if c["offset"] is not None:
            kw["offset"] = c["offset"]
        if c["scale"] is not None:
            kw["scale"] = c["scale"]
        return [g.normal(1, 2, c["N"])], kw
    if fn == "standardize_back":
        return [g.normal(1, 2, c["N"]), c["offset"], c["scale"]], {}
    if fn == "input_from_history":
        return [g.normal(1, 2, c["N"]), c["n"]], {"bias": c["bias"]}
    if fn in ("PCA", "PCA_components"):
        x = g.normal(0, 1, (c["N"], c["n"])) * (1 + np.arange(c["n"]))
        return ([x, c["k"]] if fn == "PCA" else [x]), {}
    if fn in ("LDA", "LDA_discriminants"):
        lab = labels_of(c, g)
        x = g.normal(0, 1, (c["N"], c["n"])) + (lab == "a")[:, None] * g.normal(0, 1, c["n"])
        return ([x, lab, min(c["k"], c["cl"] - 1)] if fn == "LDA" else [x, lab]), {}
    if fn == "filter_data":
        X, d, _ = make_data(c["data"])
        w = c["f"]["w"]
        return [d, X], dict(c["f"]["p"], model=c["f"]["k"], w=np.array(w) if isinstance(w, list) else w)
    a = g.normal(0, 1, c["N"])
    kw = {"function": c["function"]} if fn == "get_mean_error" else {}
    if c.get("same"):
        b = g.normal(0, 1, c["N"])
        if not c["two"]:
            a[::2] = 0
            return [a], kw
        b[::2] = a[::2]
        return [a, b], kw
    return ([a, g.normal(0, 1, c["N"])] if c["two"] else [a]), kw


def fn_of(name, pa=None):
    pa = pa or lib()
    name = sys.intern(name.replace("invalid:", ""))
    if name in ("get_filter", "AdaptiveFilter", "FilterLMS", "FilterAP"):
        return getattr(pa.filters, name)
    if name == "NetworkMLP":
        return pa.ann.NetworkMLP
    if name in ("learning_entropy", "ELBND", "ESE"):
        return getattr(pa.detection, name)
    if name in ("MAE", "MSE", "RMSE", "logSE", "get_mean_error"):
        return getattr(pa.misc, name)
    if name == "filter_data":
        return pa.filters.filter_data
    return getattr(pa.preprocess, name)


def flat(r):
    """The arrays of a result."""
    if isinstance(r, tuple):
        return [np.array(v) for v in r]
    return [np.array(r)]


# ------------------------------------------------------------------ networks
def gen_mlp(rng, small=True):
    nin = rng.randint(1, 4) if chance(rng, 0.95) else pick(rng, 7, 12, 20)
    layers = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
    if chance(rng, 0.04):
        layers[0] = pick(rng, 8, 13, 20)
    N = rng.randint(1, 5)
    m = {"layers": layers, "nin": nin, "out": pick(rng, 1, 1, 2, 3), "act": pick(rng, "sigmoid", "tanh"),
         "mu": pick(rng, "auto", 0.1, 0.02, 0.5, 0.9, 1, 0.0 if chance(rng, 0.2) else 0.3), "rs": rng.randrange(1 << 30), "s": rng.randrange(1 << 30), "N": N}
    return m


def mlp_data(m):
    g = np.random.Generator(np.random.PCG64(m["s"]))
    X = g.normal(0, 1, (m["N"], m["nin"])) * m.get("xs", 1)
    D = g.uniform(-1, 1, (m["N"], m["out"]) if m["out"] > 1 else m["N"])
    return X, D


def build_mlp(m, pa=None):
    pa = pa or lib()
    np.random.seed(m["rs"])
    return pa.ann.NetworkMLP(list(m["layers"]), m["nin"], outputs=m["out"], activation=m["act"], mu=m["mu"])


def mlp_weights(net):
    return [np.array(l.w) for l in net.layers] + [np.array(net.w)]


# ------------------------------------------------------------------ programs
def gen_program(rng, kind=None, maxN=14, mlp=True):
    kind = kind or pick(rng, "filter", "filter", "filter", "fn", "mlp" if mlp else "filter")
    if kind == "filter":
        rec = gen_data(rng, n=rng.randint(1, 5) if chance(rng, 0.95) else pick(rng, 8, 10, 17, 34), N=rng.randint(3, maxN))
        f = gen_filter(rng, rec, tame=True)
        f["via"] = "class"
        if isinstance(f["w"], dict):
            f["w"] = [r6(rng.gauss(0, 1)) for _ in range(rec["n"])]
        if f["k"] == "OCNLMS":
            f["p"]["mem"] = rng.randint(2, 8)
        return {"t": "filter", "data": rec, "f": f, "ops": gen_filter_ops(rng, rec["N"])}
    if kind == "mlp":
        m = gen_mlp(rng)
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append(pick(rng, ["train", rng.randint(1, 2)], ["run"], ["test"], ["pu", rng.randrange(m["N"])],
                            ["predict", rng.randrange(m["N"])]))
        return {"t": "mlp", "m": m, "ops": ops}
    return {"t": "fn", "ops": [gen_call(rng) for _ in range(rng.randint(1, 5))]}


def gen_filter_ops(rng, N):
    ops, k = [], 0
    while k < N:
        o = pick(rng, "run", "run", "adapt", "rt", "pred") if not chance(rng, 0.04) else "bad"
        if o == "bad":                       # a sample without a target: the call fails
            ops.append({"o": "bad", "i": rng.randrange(N), "how": pick(rng, "run", "adapt", "len")})
            continue
        if o == "pred":
            ops.append({"o": "pred", "i": rng.randrange(N), "r": 1})
            continue
        m = min(N - k, rng.randint(1, max(1, N // 2)))
        ops.append({"o": o, "ix": list(range(k, k + m))})
        k += m
    return ops


class Program:
    """A program bound to live objects.  step(j) runs operation j and records
    everything it returned; failures are recorded, not raised."""

    def __init__(self, rec, shared=None):
        self.rec = rec
        self.out = []
        self.done = 0
        if rec["t"] == "filter":
            self.X, self.d = (shared or {}).get("Xd") or make_data(rec["data"])[:2]
            w = rec["f"]["w"]
            if isinstance(w, list) and shared is not None and "w" in shared:
                pa = lib()
                self.f = getattr(pa.filters, "Filter" + rec["f"]["k"])(rec["f"]["n"], w=shared["w"], **rec["f"]["p"])
            else:
                self.f = build(rec["f"])
        elif rec["t"] == "mlp":
            self.X, self.d = mlp_data(rec["m"])
            self.f = build_mlp(rec["m"])
        self.n = len(rec["ops"])

    def step(self, j, on_exc=None):
        try:
            self.out.append(("ok", self._do(self.rec["ops"][j])))
        except Exception as ex:  # noqa
            self.out.append(("exc", [type(ex).__name__]))
            if on_exc:
                on_exc(ex)
        except BaseException as ex:  # noqa
            from .core import Hang
            if isinstance(ex, Hang):
                raise
            self.out.append(("exc", [type(ex).__name__]))
            if on_exc:
                on_exc(ex)
        self.done = j + 1

    def state(self):
        if self.rec["t"] == "filter":
            return [np.array(self.f.w)]
        if self.rec["t"] == "mlp":
            return mlp_weights(self.f)
        return []

    def _do(self, op):
        t = self.rec["t"]
        if t == "fn":
            a, kw = call_args(op)
            return flat(fn_of(op["fn"])(*a, **kw))
        f, X, d = self.f, self.X, self.d
        if t == "filter":
            if op["o"] == "run":
                ix = op["ix"]
                return flat(f.run(d[ix[0]:ix[-1] + 1], X[ix[0]:ix[-1] + 1])) + [np.array(f.w)]
            if op["o"] == "pred":
                return flat(f.predict(X[op["i"]]))
            if op["o"] == "bad":
                i = op["i"]
                if op["how"] == "adapt":
                    f.adapt(None, X[i])
                elif op["how"] == "run":
                    f.run([d[i], None], [X[i], X[i]])
                else:
                    f.run(d[i:i + 1], np.zeros((2, len(X[i]))))
                return [np.array(f.w)]
            res = []
            for i in op["ix"]:
                if op["o"] == "rt":
                    res += flat(f.predict(X[i]))
                f.adapt(d[i], X[i])
                res.append(np.array(f.w))
            return res
        if op[0] == "train":
            return flat(f.train(X, d, epochs=op[1])) + mlp_weights(f)
        if op[0] == "run":
            return flat(f.run(X))
        if op[0] == "test":
            return flat(f.test(X, d))
        y = flat(f.predict(X[op[1]]))
        if op[0] == "pu":
            y += flat(f.update(d[op[1]])) + mlp_weights(f)
        return y

    def est(self):
        """Rough number of library lines of this program."""
        return estimate(self.rec)


def estimate(rec):
    if rec["t"] == "filter":
        return 14 * sum(len(o.get("ix", "1")) for o in rec["ops"]) + 20 * len(rec["ops"])
    if rec["t"] == "mlp":
        return sum({"train": 2, "pu": 1}.get(o[0], 1) * 30 * rec["m"]["N"] for o in rec["ops"])
    return sum(25 + {"learning_entropy": 1, "ELBND": 1, "ESE": 2, "input_from_history": 1}.get(o["fn"], 0) * o.get("N", 0) +
               (14 * o["data"]["N"] if o["fn"] == "filter_data" else 0) for o in rec["ops"])
