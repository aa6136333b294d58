"""C13: MLP training is an exact, resumable sequence of backpropagation steps."""
import copy
import pickle

import numpy as np

from ..app import FORMS, form
from ..core import Violation, call, chance, describe, lib, maxdiff, pick, r6
from ..models import LD, MLPModel
from ..programs import mlp_weights
from ..world import transport

ID = "C13"
CASES = {"quick": 5000, "thorough": 200000}
LISTS = ["ops"]
RULE = ("One run = a network trained on pairs as a faulty transport delivers them (lost, duplicated, reordered), in a random "
        "split into train calls (with and without shuffle), predict/update pairs and reads, with restarts from a checkpoint "
        "and another network working in between; every recorded error, every MSE and all weights are compared with an "
        "executable chain-rule model in double and extended precision. Non-trivial: at least one compared update.")
REAL = ["padasip.ann.NetworkMLP and Layer", "numpy"]
STUB = ["source and transport of the pairs", "client that splits the work"]
ASSUME = ["the order of a shuffled epoch is inferred from the recorded errors",
          "values are compared up to the drift between the double and extended precision model",
          "mu='auto' means one over the square root of the number of inputs of the layer"]
COVER = "sessions (network shape, activation, sequence of call kinds and epochs)"


def gen(rng, tier, i):
    nin = rng.randint(1, 5)
    layers = [rng.randint(1, 5) for _ in range(pick(rng, 1, 1, 2, 2, 3, 4))]
    N = rng.randint(1, 14)
    m = {"layers": layers, "nin": nin, "out": pick(rng, 1, 1, 2, 3, 4), "act": pick(rng, "sigmoid", "tanh"),
         "mu": pick(rng, "auto", 0.1, 0.02, 0.5, 0.25, "0.1", 0.9, 1, 0.0 if chance(rng, 0.2) else 0.3), "rs": rng.randrange(1 << 30), "s": rng.randrange(1 << 30),
         "N": N, "scale": pick(rng, 1.0, 1.0, 0.1, 3.0), "kw": chance(rng, 0.8)}
    if m["mu"] == "0.1":
        m["mu"] = 0.1
    m["form"] = pick(rng, "plain", "plain", "plain", "plain", "list", "int64", "int8", "float32", "bool", *FORMS)
    if chance(rng, 0.05):                       # a larger network, a larger set
        m["nin"] = nin = pick(rng, 8, 16, 17, 32, 50)
        if chance(rng, 0.7):
            m["layers"] = layers = [pick(rng, 3, 8, 16, 20, 33, 64) for _ in range(pick(rng, 1, 2, 5, 6))]
        N = m["N"] = rng.randint(1, 70)
        m["mu"] = pick(rng, "auto", 0.1, 0.02, 0.01)
    batches, cnt, t = transport(rng, N, faults=rng.random() < 0.6)
    ops = []
    for b in batches:
        b = list(b)
        while b:
            k = rng.randint(1, len(b))
            chunk, b = b[:k], b[k:]
            r = rng.random()
            if r < 0.45 or len(chunk) > 20 and r < 0.7:
                ops.append({"o": "train", "ix": chunk, "ep": pick(rng, 1, 1, 2, 3) if chance(rng, 0.9) else pick(rng, 5, 8, 20)})
                if chance(rng, 0.08) and len(chunk) < 30:         # the documented default
                    ops[-1].update(ep=10, dflt=True)
            elif r < 0.7:
                if chance(rng, 0.4):
                    chunk = [rng.randrange(N) for _ in range(rng.randint(12, 16))] if chance(rng, 0.2) else chunk
                ops.append({"o": "shuffle", "ix": chunk, "ep": pick(rng, 1, 2, 3, 4)})
            else:
                ops.append({"o": "pu", "ix": chunk})
            if chance(rng, 0.35):
                ops.append({"o": pick(rng, "run", "test", "predict", "other", "copy", "pickle", "reads", "zero"),
                            "ix": [rng.randrange(N) for _ in range(rng.randint(1, 5))]})
    if chance(rng, 0.15):
        N2 = rng.randint(12, 16)
        m["N"] = max(N, N2)
        ops.append({"o": "shuffle", "ix": list(range(N2)), "ep": rng.randint(2, 4)})
        for _ in range(pick(rng, 0, 0, 1, 1, 2)):             # and the same set once more
            ops.append({"o": "shuffle", "ix": list(range(N2)), "ep": rng.randint(1, 3)})
        ops = ops[-14:]
    if chance(rng, 0.02):                       # a large set in one shuffled training
        m["N"] = rng.randint(65, 300)
        ops = [{"o": "shuffle", "ix": list(range(m["N"])), "ep": pick(rng, 1, 2)}] + ops[:3]
        if chance(rng, 0.3):
            ops[0]["o"] = "train"
    return {"m": m, "ops": ops[:14], "net": cnt, "t": round(t, 4)}


def data(m):
    g = np.random.Generator(np.random.PCG64(m["s"]))
    X = g.normal(0, 1, (m["N"], m["nin"])) * m["scale"]
    D = g.uniform(-1, 1, (m["N"], m["out"])) * m["scale"]
    f = m.get("form", "plain")
    if f in ("int64", "int8"):
        X, D = np.round(3 * X), np.round(2 * D)
    elif f == "bool":                            # logic tables
        X, D = (X > 0) * 1.0, (D > 0) * 1.0
    elif f == "float32":
        X, D = X.astype(f).astype(float), D.astype(f).astype(float)
    return X, (D if m["out"] > 1 else D[:, 0])


def given(m, a, target=False):
    """The same numbers in the form in which the caller has them."""
    f = m.get("form", "plain")
    if f in FORMS:
        return form(np.array(a), f)
    if f in ("int64", "int8", "float32"):
        return a.astype(f)
    if f == "bool":
        return a.astype("int64" if target else bool)
    if f == "list" and not target and a.ndim > 1:
        return a.tolist()
    return np.array(a)


def make(m):
    np.random.seed(m["rs"])
    if m["kw"]:
        return lib().ann.NetworkMLP(list(m["layers"]), m["nin"], outputs=m["out"], activation=m["act"], mu=m["mu"])
    return lib().ann.NetworkMLP(tuple(m["layers"]), m["nin"], m["out"], m["act"], m["mu"])


class Pair:
    """The model in two precisions; stops judging when they part."""

    def __init__(self, m, ws):
        if m["mu"] == "auto":
            mus = [k ** -0.5 for k in [m["nin"]] + m["layers"]]
        else:
            mus = [m["mu"]] * (len(m["layers"]) + 1)
        self.a = MLPModel(ws, mus, m["act"], m["out"], np.float64)
        self.b = MLPModel(ws, mus, m["act"], m["out"], LD)
        self.live = True

    def forward(self, x):
        """(output, tolerance)"""
        u, v = self.a.forward(x), self.b.forward(x)
        h = float(np.max(np.abs(self.b.W[-1]), initial=0)) * len(self.b.ins[-1])
        tol = 1e-9 * (float(np.max(np.abs(v))) + h) + 1e3 * float(np.max(np.abs(u - v)))
        tol += 1e3 * self.drift() * (1 + h) * (1 + float(np.max(np.abs(x), initial=0)))
        self.check(tol, v)
        return v.astype(float), tol

    def drift(self):
        return max(float(np.max(np.abs(p - q))) for p, q in zip(self.a.W, self.b.W))

    def check(self, tol, v):
        if not np.isfinite(tol) or tol > 1e-5 * (1 + float(np.max(np.abs(v)))):
            self.live = False

    def backward(self, d):
        self.a.backward(d)
        e = self.b.backward(d)
        ws = max(float(np.max(np.abs(w))) for w in self.b.W)
        if not np.isfinite(ws) or ws > 1e8:
            self.live = False
        return e.astype(float)

    def step(self, x, d):
        """error, tolerance"""
        _, tol = self.forward(x)
        return self.backward(d), tol

    def weights(self, net, what):
        if not self.live:
            return
        W = mlp_weights(net)
        for k, (w, b) in enumerate(zip(W, self.b.W)):
            w = np.atleast_2d(w)
            if w.shape != b.shape:
                raise Violation("weights-shape", f"layer {k} has weights of shape {w.shape}, expected {b.shape}")
            tol = 1e-9 * max(1.0, float(np.max(np.abs(b)))) + 1e3 * self.drift()
            if not np.all(np.abs(w - b) <= tol):
                raise Violation("weights:" + what.split(" ")[0], f"layer {k} after {what}: {describe(w)}, expected "
                                                                 f"{describe(b.astype(float))} ({maxdiff(w, b)})")


def near(v, want, tol):
    v = np.atleast_1d(np.asarray(v, dtype=float))
    return v.shape == np.shape(want) and bool(np.all(np.abs(v - want) <= tol))


def run(case, ctx):
    m = case["m"]
    X, D = data(m)
    out = m["out"]
    for k, v in case["net"].items():
        ctx.count("fault:" + k, v)
    ctx.simtime += case["t"]
    net = call("construct", make, m)
    P = Pair(m, mlp_weights(net))
    np.random.seed(m["rs"] ^ 5)
    steps, orders = 0, {}
    other = None
    for op in case["ops"]:
        o, ix = op["o"], op["ix"]
        if o in ("train", "shuffle"):
            ep = op["ep"]
            x, d = given(m, X[ix]), given(m, D[ix], True)
            if o == "train":
                e, mse = call("train", net.train, x, d, **({} if op.get("dflt") else {"epochs": ep}))
            else:
                e, mse = call("train", net.train, x, d, epochs=ep, shuffle=True)
            n = len(ix)
            if np.shape(e) != ((ep * n,) if out == 1 else (ep * n, out)) or np.shape(mse) != (ep,):
                raise Violation("result-shape", f"train over {n} pairs and {ep} epochs returned {np.shape(e)} and "
                                                f"{np.shape(mse)}")
            check_mse(e, mse, n, ep)
            if o == "train":
                for q in range(ep):
                    for k, i in enumerate(ix):
                        want, tol = P.step(X[i], D[i])
                        if not P.live:
                            break
                        steps += 1
                        if not near(e[q * n + k], want, tol):
                            raise Violation("error", f"epoch {q}, pair {k}: recorded error {describe(e[q * n + k])}, target "
                                                     f"minus output is {describe(want)} (tolerance {tol:.3g})")
            else:
                steps += shuffled(P, e, X, D, ix, ep, ctx, orders)
            ctx.log(np.asarray(e), np.asarray(mse))
        elif o == "pu":
            for i in ix:
                y = call("predict", net.predict, given(m, X[i]))
                want, tol = P.forward(X[i])
                if P.live and not near(y, want, tol):
                    raise Violation("output", f"predict gives {describe(y)}, expected {describe(want)}")
                e = call("update", net.update, D[i] if out == 1 else np.array(D[i]))
                want = P.backward(D[i])
                if P.live and not near(e, want, tol):
                    raise Violation("error", f"update returns error {describe(e)}, target minus output is {describe(want)}")
                steps += 1
                ctx.log(np.array(e))
        elif o in ("run", "test", "predict", "reads"):
            before = mlp_weights(net)
            reads(net, P, o, ix, X, D, out, m)
            for a, b in zip(before, mlp_weights(net)):
                if not np.array_equal(a, b, equal_nan=True):
                    raise Violation("read-changes-weights:" + o, f"{describe(a)} became {describe(b)}")
            ctx.count("reads_" + o)
        elif o == "other":
            if other is None:
                other = call("construct", make, m)
            call("train", other.train, np.array(X[ix]) + 1, np.array(D[ix]), epochs=1)
            call("predict", other.predict, np.array(X[ix[0]]))
            ctx.count("fault:other_network_active")
        elif o == "zero":
            e, mse = call("train", net.train, given(m, X[ix]), given(m, D[ix], True), epochs=0)
            if len(e) or len(mse):
                raise Violation("result-shape", f"training for 0 epochs returned {np.shape(e)}")
        else:
            net = call(o, copy.deepcopy, net) if o == "copy" else call(o, lambda: pickle.loads(pickle.dumps(net)))
            ctx.count("fault:restart_" + o)
        P.weights(net, f"{o} of pairs {ix[:8]}")
        if not P.live:
            ctx.count("diverged")
            break
    ctx.count("updates_compared", steps)
    for w in mlp_weights(net):
        ctx.log(w)
    ctx.mark(m["layers"], m["nin"], out, m["act"], [(o["o"], o.get("ep"), len(o["ix"])) for o in case["ops"]][:8])
    ctx.nontrivial = steps > 0


def check_mse(e, mse, n, ep):
    e = np.asarray(e, dtype=LD).reshape(ep, n, -1)
    for q in range(ep):
        want = float(np.sum(e[q] ** 2) / n)
        if not (abs(float(mse[q]) - want) <= 1e-9 * abs(want) + 1e-300 or not np.isfinite(want)):
            raise Violation("mse", f"epoch {q}: reported MSE {float(mse[q])!r}, mean squared error of its {n} pairs {want!r}")


def shuffled(P, e, X, D, ix, ep, ctx, earlier):
    """Every epoch must present every pair exactly once; the order is found from
    the recorded errors."""
    n, steps, orders = len(ix), 0, []
    for q in range(ep):
        left = list(range(n))
        order, places = [], []
        for k in range(n):
            got = np.atleast_1d(np.asarray(e[q * n + k], dtype=float))
            best, bi, tb = None, None, None
            fits = set()
            near_by = left
            if len(left) > 24:                  # only the nearest by a rough forward pass can explain it
                y = P.a.outputs_of(X[[ix[j] for j in left]])
                r = np.max(np.abs(D.reshape(len(D), -1)[[ix[j] for j in left]] - y - got), axis=1)
                near_by = [left[j] for j in np.argsort(r, kind="stable")[:6]]
            for j in near_by:
                y, tol = P.forward(X[ix[j]])
                if not P.live:
                    return steps
                r = float(np.max(np.abs(np.atleast_1d(D[ix[j]]) - y - got)))
                if r <= tol:
                    fits.add(ix[j])
                if best is None or r / tol < best / tb:
                    best, bi, tb = r, j, tol
            if best > tb:
                raise Violation("shuffle:pair", f"epoch {q}, position {k}: recorded error {describe(got)} belongs to none of "
                                                f"the {len(left)} pairs not yet presented in this epoch (nearest {best:.3g})")
            if len(fits) > 1:              # two pairs explain this error: no judgement
                P.live = False
                ctx.count("ambiguous_order")
                return steps
            P.step(X[ix[bi]], D[ix[bi]])
            left.remove(bi)
            order.append(ix[bi])
            places.append(bi)
            steps += 1
        orders.append(order)
        if n >= 12 and len(set(ix)) == n:
            if places in earlier.setdefault(n, []):
                raise Violation("shuffle:order-not-redrawn", f"epoch {q} of this training presents its {n} pairs in an order of an earlier epoch: {places}")
            earlier[n].append(places)
    ctx.count("shuffled_epochs", ep)
    if n >= 12 and len(set(ix)) >= 12:
        for a in range(ep):
            for b in range(a + 1, ep):
                if orders[a] == orders[b]:
                    raise Violation("shuffle:order-not-redrawn", f"epochs {a} and {b} present the pairs in the same order "
                                                                 f"{orders[a]}")
            if orders[a] == list(ix):
                raise Violation("shuffle:not-shuffled", f"epoch {a} presents the pairs in the given order")
    return steps


def reads(net, P, o, ix, X, D, out, m):
    Y, T = [], []
    for i in ix:
        y, tol = P.forward(X[i])
        Y.append(y)
        T.append(tol)
    if o in ("run", "reads"):
        r = np.asarray(call("mlp.run", net.run, given(m, X[ix])))
        if r.shape != ((len(ix),) if out == 1 else (len(ix), out)):
            raise Violation("result-shape", f"run over {len(ix)} inputs returned {r.shape}")
        for k in range(len(ix)):
            if P.live and not near(r[k], Y[k], T[k]):
                raise Violation("output", f"run gives {describe(r[k])}, expected {describe(Y[k])}")
    if o in ("test", "reads"):
        r = np.asarray(call("mlp.test", net.test, given(m, X[ix]), given(m, D[ix], True)))
        for k in range(len(ix)):
            if P.live and not near(r[k], np.atleast_1d(D[ix[k]]) - Y[k], T[k]):
                raise Violation("output", f"test gives {describe(r[k])}, expected {describe(np.atleast_1d(D[ix[k]]) - Y[k])}")
    if o in ("predict", "reads"):
        for k, i in enumerate(ix):
            r = call("mlp.predict", net.predict, given(m, X[i]))
            if P.live and not near(r, Y[k], T[k]):
                raise Violation("output", f"predict gives {describe(r)}, expected {describe(Y[k])}")


def simplify(case):
    for k, op in enumerate(case["ops"]):
        ix = op["ix"]
        if len(ix) > 1:
            for part in (ix[:len(ix) // 2], ix[:-1], ix[1:]):
                yield dict(case, ops=case["ops"][:k] + [dict(op, ix=part)] + case["ops"][k + 1:])
        if op.get("ep", 1) > 1:
            yield dict(case, ops=case["ops"][:k] + [dict(op, ep=1)] + case["ops"][k + 1:])
    m = case["m"]
    if len(m["layers"]) > 1:
        for q in range(len(m["layers"])):
            yield dict(case, m=dict(m, layers=m["layers"][:q] + m["layers"][q + 1:]))
    for q, v in (("form", "plain"), ("out", 1), ("nin", 1), ("mu", 0.1)):
        if m[q] != v:
            yield dict(case, m=dict(m, **{q: v}))
