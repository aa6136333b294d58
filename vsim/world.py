"""The simulated world: sources, transport with faults, filters and their
parameters.  Everything is derived from one random.Random; data of a case are a
pure function of the case's small data record."""
import heapq
import math

import numpy as np

from .core import chance, lib, logu, pick, r6

KINDS = ["AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS", "OCNLMS", "RLS", "SSLMS",
         "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]
MEMORYLESS = ["LMS", "NLMS", "LMF", "NLMF", "SSLMS", "NSSLMS", "Llncosh", "GMCC"]
STATEFUL = [k for k in KINDS if k not in MEMORYLESS]
CLASSES = {k: "Filter" + k for k in KINDS}


# --------------------------------------------------------------------------- data
def gen_data(rng, n=None, N=None, kinds=None, tier="quick"):
    """A data record: how the sensors behave in this run."""
    if n is None:
        n = pick(rng, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 8, 12, 16, 33) if chance(rng, 0.97) else pick(rng, 64, 64, 130, 130, 257)
    if N is None:
        r = rng.random()
        if r < 0.55:
            N = rng.randint(2, 40)
        elif r < 0.9:
            N = rng.randint(40, 140)
        elif r < 0.985:
            N = rng.randint(140, 400)
        elif r < 0.997:
            N = rng.randint(600, 1500)
        else:                   # an archive
            N = rng.randint(2000, 5000)
        if n > 32:
            N = min(N, 150 if n < 200 else 40)
        elif n > 8:
            N = min(N, 1500)
    kind = pick(rng, *(kinds or ["white", "white", "white", "uniform", "ar", "tapped", "sines", "int", "sparse",
                                 "stuck", "offset", "repeat", "walk", "onehot", "gap", "pcm"]))
    scale = 1.0 if chance(rng, 0.7) else pick(rng, 1e-3, 1e-2, 0.1, 10.0, 100.0)
    if kind == "int":
        scale = 1.0
    dk = pick(rng, "linear", "linear", "linear", "noise", "drift", "jump", "zero", "binary", "offset", "outliers")
    rec = {"s": rng.randrange(1 << 30), "n": n, "N": N, "kind": kind, "scale": scale, "dk": dk}
    if kind == "pcm":           # what converters deliver: small integers, half precision
        rec["dt"] = pick(rng, *PCM)
        rec["scale"] = PCM[rec["dt"]][0]
        rec["dint"] = chance(rng, 0.3)
    return rec


PCM = {"int8": (25.0, 0.0), "uint8": (25.0, 120.0), "int16": (3000.0, 0.0), "uint16": (3000.0, 9000.0), "int32": (80000.0, 0.0),
       "float16": (200.0, 0.0), "float32": (1.0, 0.0)}


def quantise(a, dt):
    """The values a converter of that type can deliver, as float64."""
    t = np.dtype(dt)
    if t.kind == "f":
        return a.astype(t).astype(float)
    i = np.iinfo(t)
    return np.clip(np.round(a), i.min, i.max)


def make_data(rec):
    """(X, d, wtrue) of a data record."""
    g = np.random.Generator(np.random.PCG64(rec["s"]))
    n, N, kind = rec["n"], rec["N"], rec["kind"]
    if kind == "white":
        X = g.normal(0, 1, (N, n))
    elif kind == "uniform":
        X = g.uniform(-1, 1, (N, n)) + g.integers(0, 2)
    elif kind == "ar":
        X = g.normal(0, 1, (N, n))
        a = g.uniform(0.5, 0.98)
        for k in range(1, N):
            X[k] = a * X[k - 1] + math.sqrt(1 - a * a) * X[k]
    elif kind == "tapped":
        s = g.normal(0, 1, N + n - 1)
        X = np.array([s[k:k + n] for k in range(N)])
    elif kind == "sines":
        t = np.arange(N)[:, None]
        X = np.sin(t * g.uniform(0.01, 3, n)[None, :] + g.uniform(0, 6, n)[None, :])
    elif kind == "int":
        X = g.integers(-4, 5, (N, n)).astype(float)
    elif kind == "sparse":
        X = g.normal(0, 1, (N, n)) * (g.random((N, n)) < 0.4) * (g.random(N) < 0.7)[:, None]
    elif kind == "stuck":
        X = np.tile(g.normal(0, 1, n), (N, 1))
        X[:N // 2] = g.normal(0, 1, (N // 2, n))
    elif kind == "offset":
        X = g.normal(0, 1, (N, n)) + g.uniform(-20, 20, n)
    elif kind == "repeat":
        X = np.repeat(g.normal(0, 1, (N // 3 + 1, n)), 3, axis=0)[:N]
    elif kind == "walk":
        X = np.cumsum(g.normal(0, 0.1, (N, n)), axis=0)
    elif kind == "onehot":
        X = np.zeros((N, n))
        X[np.arange(N), g.integers(0, n, N)] = g.choice([-1.0, 1.0, 2.0], N)
    elif kind == "pcm":
        X = g.normal(0, 1, (N, n))
    elif kind == "gap":
        X = g.normal(0, 1, (N, n))
        a = int(g.integers(0, N))
        X[a:a + N // 4] = 0.0
    else:
        raise ValueError(kind)
    scale = rec["scale"]
    X = X * scale
    if kind == "pcm":
        X = quantise(X + PCM[rec["dt"]][1], rec["dt"])
    wt = g.normal(0, 1, n)
    dk = rec["dk"]
    if kind == "int":
        wt = g.integers(-3, 4, n).astype(float)
    if dk in ("linear", "clean"):
        d = X @ wt + (0 if dk == "clean" else 0.1 * scale) * g.normal(0, 1, N)
    elif dk == "noise":
        d = g.normal(0, 1, N) * scale
    elif dk == "drift":
        d = X @ wt + np.arange(N) * (0.02 * scale)
    elif dk == "jump":
        d = X @ wt
        d[N // 2:] = X[N // 2:] @ (wt + g.normal(0, 1, n))
    elif dk == "zero":
        d = np.zeros(N)
    elif dk == "binary":
        d = g.choice([-1.0, 0.0, 1.0], N) * scale
    elif dk == "offset":
        d = X @ wt + 7.0 * scale
    elif dk == "outliers":
        d = X @ wt
        d[g.random(N) < 0.05] += 30 * scale
    else:
        raise ValueError(dk)
    if kind == "int":
        d = np.round(d)
    if kind == "pcm" and rec["dint"]:
        d = quantise(d, rec["dt"])
    return X, d, wt


def power(rec):
    """Rough upper estimate of |x|^2, used to choose sensible step sizes."""
    n, s = rec["n"], rec["scale"]
    base = {"offset": 140.0, "walk": 2.0, "int": 7.0, "onehot": 2.0 / n, "uniform": 1.4}.get(rec["kind"], 1.0)
    if rec["kind"] == "pcm":
        base = 1 + (PCM[rec["dt"]][1] / s) ** 2
    return max(n * base * s * s, 1e-12)


# --------------------------------------------------------------------------- filters
def gen_filter(rng, rec, kinds=None, tame=False):
    """A filter record for data record `rec`: class, parameters, initial weights."""
    kind = pick(rng, *(kinds or KINDS))
    n, s, P = rec["n"], rec["scale"], power(rec)
    emag = max(s * math.sqrt(n), 1e-9) * (6 if rec["kind"] == "offset" else 1)
    p = {}
    small = r6(rng.uniform(0.02, 0.6) / P)
    if kind == "LMS":
        p["mu"] = small
    elif kind == "LMF":
        p["mu"] = r6(rng.uniform(0.005, 0.1) / (P * emag ** 2))
    elif kind == "NLMF":
        p["mu"] = r6(rng.uniform(0.005, 0.12) / emag ** 2)
        p["eps"] = r6(pick(rng, 0.001, 0.01, 1.0, 0.3) * (1 if s >= 0.1 else s * s))
    elif kind == "NLMS":
        p["mu"] = r6(rng.uniform(0.05, 1.9))
        p["eps"] = r6(pick(rng, 0.001, 0.01, 0.1, 1.0, 5.0, 1e-6) * min(1, s * s))
    elif kind == "SSLMS":
        p["mu"] = pick(rng, 0.25, 0.125, 0.5, 1.0, 0.0625) if rec["kind"] == "int" else r6(logu(rng, 1e-3, 0.3))
    elif kind == "NSSLMS":
        p["mu"] = r6(logu(rng, 1e-3, 0.5) * min(1.0, s * s))
        p["eps"] = r6(pick(rng, 0.001, 0.1, 1.0) * min(1, s * s))
    elif kind == "Llncosh":
        p["mu"] = r6(rng.uniform(0.01, 0.4) / P * (emag if chance(rng, 0.3) else 1.0) * min(1.0, 1))
        p["lambd"] = r6(logu(rng, 0.05, 5) / max(s, 1e-3))
    elif kind == "GMCC":
        p["mu"] = r6(rng.uniform(0.01, 0.5) / P)
        p["lambd"] = r6(logu(rng, 0.01, 0.5) / max(s * s, 1e-6))
        p["alpha"] = pick(rng, 2, 2, 1.5, 3, 4, 1.2, 1, 2.5)
    elif kind == "GNGD":
        p["mu"] = r6(rng.uniform(0.05, 1.2))
        p["eps"] = r6(pick(rng, 1.0, 0.1, 3.0, 10.0) * max(s * s, 1e-9))
        p["ro"] = r6(pick(rng, 0.1, 0.01, 0.001, 0.2, 0.0) * (s * s if s < 1 else 1.0))
        if not tame and chance(rng, 0.2):    # the regularisation adapts fast, also below zero
            p["ro"] = r6(pick(rng, 1.0, 3.0) * s * s)
            p["eps"] = r6(pick(rng, 0.05, 0.3, 1.0) * s * s)
    elif kind == "OCNLMS":
        p["mu"] = r6(rng.uniform(0.05, 1.2))
        p["eps"] = r6(pick(rng, 1.0, 0.1, 0.01, 5.0) * min(1, s * s))
        p["mem"] = pick(rng, 2, 3, 4, 5, 6, 7, 8, 10, 11, 20, 25, 50, 100)
    elif kind == "RLS":
        p["mu"] = r6(pick(rng, 0.9, 0.95, 0.98, 0.99, 0.999, 1.0, 0.8, rng.uniform(0.85, 1.0)))
        p["eps"] = r6(pick(rng, 0.001, 0.01, 0.1, 0.5, 1.0) * (s * s if s < 1 else 1.0))
    elif kind == "AP":
        p["mu"] = r6(rng.uniform(0.05, 1.5))
        p["order"] = pick(rng, 1, 2, 2, 3, 4, 5, 6, 8) if chance(rng, 0.92) else pick(rng, 10, 12, 17, 24)
        p["ifc"] = r6(pick(rng, 0.001, 0.01, 0.1, 1.0) * min(1, s * s))
    elif kind == "VSLMS_Ang":
        p["mu"] = small
        p["ro"] = r6(pick(rng, 0.0002, 0.001, 0.01, 0.0) / (P * P) * min(1.0, 1 / (emag * emag)))
        p["a"] = pick(rng, 0.95, 0.9, 0.99, 0.5, 0.0)
    elif kind == "VSLMS_Benveniste":
        p["mu"] = small
        p["ro"] = r6(pick(rng, 0.0002, 0.001, 0.01, 0.0) / (P * P) * min(1.0, 1 / (emag * emag)))
    elif kind == "VSLMS_Mathews":
        p["mu"] = small
        p["ro"] = r6(pick(rng, 0.001, 0.01, 0.05, 0.0) / (P * P) * min(1.0, 1 / (emag * emag)))
    if chance(rng, 0.12):           # round numbers, as people choose them
        if kind in ("NLMS", "GNGD", "OCNLMS", "AP"):
            p["mu"] = pick(rng, 1, 1.0, 1.0, 0.5, 0.25) if kind == "GNGD" or tame else pick(rng, 1, 1.0, 1.0, 0.5, 0.25, 1.5)
        elif kind == "RLS":
            p["mu"] = pick(rng, 1, 1.0, 0.9)
        elif p["mu"] > 1e-300:
            b = pick(rng, 2, 10)
            p["mu"] = float(b) ** math.floor(math.log(p["mu"], b))
        if 0.1 <= s <= 1:
            for q in ("eps", "lambd", "ifc"):
                if q in p and chance(rng, 0.5) and not (q == "lambd" and kind == "GMCC" and P > 10):
                    p[q] = pick(rng, 1, 1.0, 0.5)
    if not tame and chance(rng, 0.03):
        p["mu"] = 0.0 if kind != "RLS" else 1.0
    if not tame and rec["kind"] not in ("int", "stuck") and chance(rng, 0.04):   # no regularisation, no effect
        for q in ("eps", "lambd", "ro", "a"):
            if q in p and kind not in ("RLS", "Llncosh"):
                p[q] = 0.0
    if not tame and kind == "RLS" and chance(rng, 0.04):     # a short memory
        p["mu"] = pick(rng, 0.5, 0.3, 0.7)
    if kind == "OCNLMS" and chance(rng, 0.03):
        p["mem"] = pick(rng, 64, 128, 150)
    if not tame and chance(rng, 0.06):       # rely on the documented defaults for some parameters
        for q in list(p):
            if q != "mu" and q != "mem" and chance(rng, 0.5):
                del p[q]
    r = rng.random()
    if r < 0.35:
        w = "zeros"
    elif r < 0.6:
        w = {"rs": rng.randrange(1 << 30)}
    else:
        w = [float(v) for v in (rng.choice([-1, 0, 0.5, 1, 2]) for _ in range(n))] if (rec["kind"] == "int" or
             chance(rng, 0.2)) else [r6(rng.gauss(0, 1)) for _ in range(n)]
    spec = {}
    if isinstance(w, list) and chance(rng, 0.5):             # the form in which the weights are given
        spec["wf"] = pick(rng, "array", "tuple", "f32", "int", "strided", "readonly", ">f8", "npfloats")
        if spec["wf"] == "int":
            w = [float(round(v)) for v in w]
        elif spec["wf"] == "f32":
            w = [float(np.float32(v)) for v in w]
    return {**spec, "k": kind, "n": n, "p": p, "w": w, "via": pick(rng, "class", "class", "factory", "get")}


def mixcase(name, code):
    return "".join(c.upper() if (code >> (i % 8)) & 1 else c.lower() for i, c in enumerate(name))


def w_arg(spec, container="list"):
    w = spec["w"]
    if isinstance(w, dict):
        np.random.seed(w["rs"])
        return "random"
    if isinstance(w, list):
        return weights_as(w, spec.get("wf", container))
    return w


def weights_as(w, form):
    """The same initial weights in another container."""
    if form == "array":
        return np.array(w)
    if form == "tuple":
        return tuple(w)
    if form == "f32" and all(float(np.float32(v)) == v for v in w):
        return np.array(w, dtype=np.float32)
    if form == "int" and all(float(v).is_integer() for v in w):
        return [int(v) for v in w] if len(w) % 2 else np.array([int(v) for v in w])
    if form == "strided":
        return np.repeat(np.array(w), 2)[::2]
    if form == "readonly":
        a = np.array(w)
        a.setflags(write=False)
        return a
    if form == ">f8":
        return np.array(w, dtype=">f8")
    if form == "npfloats":
        return [np.float64(v) for v in w]
    return list(w)


def build(spec, wcontainer="list", pa=None):
    """Create the real filter of a filter record through its entry point."""
    pa = pa or lib()
    w = w_arg(spec, wcontainer)
    via = spec.get("via", "class")
    kw = dict(spec["p"])
    if via == "class":
        return getattr(pa.filters, CLASSES[spec["k"]])(spec["n"], w=w, **kw)
    if via == "get":
        return pa.filters.get_filter(mixcase(spec["k"], spec.get("mc", 0)))(n=spec["n"], w=w, **kw)
    return pa.filters.AdaptiveFilter(model=mixcase(spec["k"], spec.get("mc", 0)), n=spec["n"], w=w, **kw)


# --------------------------------------------------------------------------- transport
def transport(rng, N, faults=True):
    """Discrete-event simulation of the way from sensor to filter.  Returns
    (batches, counters, simulated seconds): what the consumer finds at each poll."""
    cnt = {}

    def c(k, m=1):
        cnt[k] = cnt.get(k, 0) + m

    period = pick(rng, 0.001, 0.01, 0.1, 1.0)
    on = (lambda p: faults and chance(rng, p))
    loss = rng.uniform(0.01, 0.2) if on(0.35) else 0.0
    dup = rng.uniform(0.01, 0.2) if on(0.35) else 0.0
    jitter = period * rng.uniform(0.5, 6) if on(0.4) else 0.0
    part = []
    if on(0.3):
        for _ in range(rng.randint(1, 2)):
            a = rng.uniform(0, N * period)
            part.append((a, a + rng.uniform(1, max(2, N / 4)) * period, pick(rng, "drop", "buffer")))
    stall = rng.uniform(0.02, 0.15) if on(0.4) else 0.0
    poll = period * (pick(rng, 0.6, 1.0, 1.0, 3.0, 10.0, 40.0) if chance(rng, 0.85) and N < 1600 else 2 * N)
    q, seq = [], 0
    last = 0.0
    for i in range(N):
        t = i * period
        if chance(rng, loss):
            c("loss")
            continue
        drop = False
        at = t
        for a, b, mode in part:
            if a <= t < b:
                if mode == "drop":
                    drop = True
                else:
                    at = max(at, b)
        if drop:
            c("partition_drop")
            continue
        if at != t:
            c("partition_buffered")
        copies = 2 if chance(rng, dup) else 1
        if copies == 2:
            c("duplicate")
        for _ in range(copies):
            arr = at + (rng.uniform(0, jitter) if jitter else 0.0)
            if arr < last:
                c("reorder")
            last = max(last, arr)
            heapq.heappush(q, (arr, seq, i))
            seq += 1
    batches, t = [], 0.0
    while q:
        t += poll
        if chance(rng, stall):
            t += poll * rng.randint(2, 12)
            c("consumer_stall")
        b = []
        while q and q[0][0] <= t:
            b.append(heapq.heappop(q)[2])
        if not b and q and q[0][0] > t + 50 * poll:
            t = q[0][0]
        if b:
            batches.append(b)
    return batches, cnt, t


def feed_ops(rng, batches, predict=True, pretrained=True):
    """Turn delivered batches into operations of the consumer application."""
    style = pick(rng, "run", "adapt", "mixed", "mixed", "realtime")
    ops = []
    pred = predict and chance(rng, 0.5)
    for b in batches:
        b = list(b)
        while b:
            st = style if style != "mixed" else pick(rng, "run", "adapt", "realtime")
            m = len(b) if chance(rng, 0.6) else rng.randint(1, len(b))
            chunk, b = b[:m], b[m:]
            if st == "run":
                if pretrained and len(chunk) >= 4 and chance(rng, 0.12):
                    nt = pick(rng, 0.5, 0.25, 0.75, 0.3, 0.6, 0.29, 0.57, 0.7, 0.9, 0.1, 0.99, round(rng.random(), 3))
                    if 0 < int(len(chunk) * nt) < len(chunk):
                        ep = rng.randint(1, 3) if chance(rng, 0.85) else pick(rng, 4, 7, 12, 0)
                        ops.append({"o": "pre", "ix": chunk, "nt": nt, "ep": ep if len(chunk) * ep < 6000 else 1})
                        continue
                ops.append({"o": "run", "ix": chunk})
            elif st == "adapt":
                for i in chunk:
                    ops.append({"o": "adapt", "ix": [i]})
            else:
                for i in chunk:
                    ops.append({"o": "rt", "ix": [i]})
            if pred and chance(rng, 0.3):
                ops.append({"o": "pred", "i": rng.choice(chunk), "r": pick(rng, 1, 1, 2, 5)})
    return ops


def expand(ops):
    """The sample sequence (indices) that a list of operations consumes."""
    out = []
    for op in ops:
        if op["o"] in ("run", "adapt", "rt"):
            out.extend(op["ix"])
        elif op["o"] == "pre":
            m = int(len(op["ix"]) * op["nt"])
            out.extend(op["ix"][:m] * op["ep"])
            out.extend(op["ix"][m:])
    return out


def shrink_ops(case, key="ops"):
    """Simpler variants of a case: shorter index lists, simpler operations."""
    ops = case[key]
    for k, op in enumerate(ops):
        ix = op.get("ix")
        if ix and len(ix) > 1:
            for part in (ix[:len(ix) // 2], ix[len(ix) // 2:], ix[:-1], ix[1:]):
                c = dict(case)
                c[key] = ops[:k] + [dict(op, ix=part)] + ops[k + 1:]
                yield c
    rec = case.get("data")
    if rec:
        for alt in ({"dk": "linear"}, {"kind": "white"}, {"scale": 1.0}, {"kind": "int"}):
            if any(rec.get(a) != b for a, b in alt.items()):
                yield dict(case, data=dict(rec, **alt))
