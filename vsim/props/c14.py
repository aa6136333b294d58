"""C14: filters recover after faults, and clean data never makes the estimate worse."""
import math

import numpy as np

from ..core import Violation, call, chance, pick, r6
from ..world import build, transport

ID = "C14"
CASES = {"quick": 5000, "thorough": 200000}
LISTS = ["phases"]
RULE = ("One run = a filter identifying a linear system through a transport that loses, duplicates, delays and reorders "
        "samples; phases of clean data alternate with bursts of corrupted samples (outliers, dead or saturated sensors, "
        "swapped or sign-flipped inputs, foreign targets), data gaps and changes of the system; after every clean sample the "
        "misalignment is compared with the one before, and at the end of the last clean phase with a bound. Non-trivial: at "
        "least one clean sample judged.")
REAL = ["padasip.filters (LMS, NLMS, AP, RLS and base classes)", "numpy"]
STUB = ["the unknown system, sensors and their faults", "transport and consumer timing"]
ASSUME = ["recovery bound: four times the mean convergence time of white Gaussian inputs (plus a constant); AP and NLMS with "
          "regularisation up to 8 times the input power, RLS with forgetting factor 0.8 to 0.97"]
COVER = "fault histories (filter, sequence of phases and burst kinds)"

BURSTS = ["outlier_d", "outlier_x", "dead_x", "dead_d", "saturate", "flip", "shuffle_x", "noise_d", "huge_d", "loud_x"]
# an input a thousand times louder makes LMS, whose step is not normalised, diverge: not for LMS


def gen(rng, tier, i):
    k = pick(rng, "LMS", "NLMS", "NLMS", "AP", "AP", "RLS")
    n = pick(rng, 1, 2, 3, 4) if chance(rng, 0.8) else pick(rng, 6, 8)
    sigma = pick(rng, 1.0, 1.0, 0.1, 10.0)
    p = {}
    if k == "LMS":
        p["mu"] = r6(rng.uniform(0.15, 0.8) / (n * sigma ** 2) * n / (n + 2))
        if chance(rng, 0.2):
            p["mu"] = r6(rng.uniform(1e-4, 2.0) / (n * sigma ** 2))
    elif k == "NLMS":
        p["mu"] = r6(rng.uniform(0.2, 1.8)) if chance(rng, 0.8) else pick(rng, 2.0, 1.95, 0.01, 1.0)
        p["eps"] = r6(pick(rng, 0.001, 0.01, 0.1) * sigma ** 2)
    elif k == "AP":
        p["mu"] = r6(rng.uniform(0.2, 1.8)) if chance(rng, 0.8) else pick(rng, 2.0, 1.95, 0.01, 1.0)
        p["order"] = pick(rng, 1, 2, 3, 4, 5)
        p["ifc"] = r6(pick(rng, 0.001, 0.01, 0.1) * sigma ** 2)
    else:
        p["mu"] = r6(rng.uniform(0.8, 0.97))
        p["eps"] = r6(pick(rng, 0.001, 0.1, 1.0))
    if chance(rng, 0.25) and k in ("NLMS", "AP"):             # a signal that is faint against the regularisation
        p["eps" if k == "NLMS" else "ifc"] = r6(pick(rng, 0.3, 1.0, 3.0, 8.0) * n * sigma ** 2)
    elif chance(rng, 0.1) and k in ("NLMS", "AP"):
        p.pop("eps", None) if sigma == 1.0 else None
    phases = []
    for _ in range(rng.randint(1, 4)):
        phases.append({"t": "clean", "N": rng.randint(3, 40) if chance(rng, 0.85) else rng.randint(80, 250), "in": pick(rng, "white", "ar", "tapped", "weak", "uniform")})
        r = rng.random()
        if r < 0.6:
            phases.append({"t": "burst", "N": rng.randint(1, 8) if chance(rng, 0.85) else rng.randint(30, 120), "k": pick(rng, *BURSTS[:-1 if k == "LMS" else None])})
        elif r < 0.85:
            phases.append({"t": "change", "how": pick(rng, "new", "negate", "scale", "one", "far", "small")})
        else:
            phases.append({"t": "gap", "N": rng.randint(1, 20)})
    if chance(rng, 0.04):               # a long calm, then the system changes
        phases = phases[:rng.randint(0, 2)] + [
            {"t": "clean", "N": rng.randint(500, 1500), "in": pick(rng, "white", "uniform", "tapped")},
            {"t": "change", "how": pick(rng, "far", "far", "new", "negate")}]
    w = pick(rng, "zeros", "rand", "far")
    return {"f": {"k": k, "n": n, "p": p, "w": "zeros" if w == "zeros" else
                  [r6(rng.gauss(0, 100 if w == "far" else 1)) for _ in range(n)], "via": pick(rng, "class", "factory")},
            "sigma": sigma, "phases": phases, "s": rng.randrange(1 << 30), "feed": pick(rng, "run", "adapt", "rt", "mixed"),
            "tseed": rng.randrange(1 << 30), "recover": chance(rng, 0.6)}


def convergence(spec, sigma, D0, goal):
    """Samples that suffice to come from misalignment D0 to `goal` on white data."""
    k, n, p = spec["k"], spec["n"], spec["p"]
    ratio = max(2.0, D0 / goal)
    if k == "LMS":
        c = p["mu"] * sigma ** 2
        rate = 2 * c - c * c * (n + 2)                 # decay of the mean square per sample
        if rate <= 0.02:
            return None
    elif k in ("NLMS", "AP"):
        mu = p["mu"]
        if not 0.1 <= mu <= 1.9:
            return None
        rate = (2 * mu - mu * mu) / n * 0.5 * (0.3 if n == 1 else 0.6)     # small inputs slow it down
        rate *= faint(n, p.get("eps", p.get("ifc", 0.001)) / sigma ** 2, mu)
    else:
        lam = p["mu"]
        return int(4 * (math.log(ratio) * 2 + 30) / -math.log(lam)) + 50 * n
    return int(4 * 2 * math.log(ratio) / rate) + 100


def faint(n, reg, mu):
    """How much the regularisation `reg` slows down a normalised filter: the mean of
    2*m - m**2, m = mu*P/(P + reg), relative to the one without it, for P ~ chi^2(n)."""
    if reg < 0.2 * n:
        return 1.0
    P = np.random.Generator(np.random.PCG64(n)).chisquare(n, 500)
    m = mu * P / (P + reg)
    return min(1.0, float(np.mean(2 * m - m * m)) / (2 * mu - mu * mu)) * 0.7


class World:
    """Source: inputs of several kinds, the true system, sensor faults."""

    def __init__(self, case):
        self.g = np.random.Generator(np.random.PCG64(case["s"]))
        self.n, self.sigma = case["f"]["n"], case["sigma"]
        self.wt = self.g.normal(0, 1, self.n)
        self.tap = list(self.g.normal(0, 1, self.n))
        self.ar = self.g.normal(0, 1, self.n)

    def x(self, kind):
        g, n = self.g, self.n
        if kind == "white":
            x = g.normal(0, 1, n)
        elif kind == "ar":
            self.ar = 0.9 * self.ar + 0.43 * g.normal(0, 1, n)
            x = self.ar
        elif kind == "tapped":
            self.tap = self.tap[1:] + [g.normal(0, 1)]
            x = np.array(self.tap)
        elif kind == "weak":
            x = g.normal(0, 0.01, n) if g.random() < 0.5 else np.eye(n)[int(g.integers(0, n))]
        else:
            x = g.uniform(-1.5, 1.5, n)
        return np.array(x) * self.sigma

    def corrupt(self, k, x, d):
        g, s = self.g, self.sigma
        if k == "outlier_d":
            return x, d + g.normal(0, 100) * s
        if k == "huge_d":
            return x, d + 1e5 * s
        if k == "outlier_x":
            return x + g.normal(0, 3, self.n) * s, d
        if k == "loud_x":
            return x * 1e3, d if s < 5 else d * 1e3
        if k == "dead_x":
            return x * 0, d
        if k == "dead_d":
            return x, 0.0
        if k == "saturate":
            return np.clip(x, -0.2 * s, 0.2 * s), d
        if k == "flip":
            return -x, d
        if k == "shuffle_x":
            return x[::-1].copy(), d
        return x, d + g.normal(0, 3) * s


def run(case, ctx):
    import random
    spec = case["f"]
    n, k, p = spec["n"], spec["k"], spec["p"]
    W = World(case)
    rng = random.Random(case["tseed"])
    f = call("construct", build, spec)
    order = p.get("order", 5)
    dirty = 0                          # AP: samples until the window is clean again
    judged = 0
    trace = []
    for ph in case["phases"]:
        if ph["t"] == "change":
            W.wt = {"new": W.g.normal(0, 1, n), "negate": -W.wt, "scale": W.wt * 3, "far": W.g.normal(0, 1000, n),
                    "small": W.wt * 1e-3,
                    "one": W.wt + 5 * np.eye(n)[int(W.g.integers(0, n))]}[ph["how"]]
            dirty = order
            ctx.count("fault:system_change")
            trace.append("change")
            continue
        if ph["t"] == "gap":
            for _ in range(ph["N"]):
                W.x("white")
            ctx.count("fault:data_gap", ph["N"])
            continue
        xs = [W.x(ph["in"] if ph["t"] == "clean" else "white") for _ in range(ph["N"])]
        S = [(x, float(x @ W.wt)) for x in xs]
        if ph["t"] == "burst":
            S = [W.corrupt(ph["k"], x, d) for x, d in S]
            ctx.count("fault:burst_" + ph["k"], len(S))
            trace.append(ph["k"])
        batches, cnt, t = transport(rng, len(S))
        for q, v in cnt.items():
            ctx.count("fault:" + q, v)
        ctx.simtime += t
        dirty, j = feed(f, spec, case, S, batches, W.wt, ph["t"] == "clean", dirty, order, rng, ctx)
        judged += j
    if not np.all(np.isfinite(f.w)):
        raise Violation("no-recovery:" + k, f"weights {f.w} after finite data")
    if case["recover"]:
        D0 = float(np.linalg.norm(f.w - W.wt))
        goal = 1e-3 * (1 + float(np.linalg.norm(W.wt)))
        M = convergence(spec, case["sigma"], D0, goal) if D0 < 1e9 else None
        if M is not None and M < 9000:
            xs = [W.x("white") for _ in range(int(M * 1.6))]
            S = [(x, float(x @ W.wt)) for x in xs]
            batches, cnt, t = transport(rng, len(S))
            have = sum(len(b) for b in batches)
            if len(set(i for b in batches for i in b)) >= M:
                for q, v in cnt.items():
                    ctx.count("fault:" + q, v)
                ctx.simtime += t
                dirty, j = feed(f, spec, case, S, batches, W.wt, True, dirty, order, rng, ctx)
                judged += j
                D = float(np.linalg.norm(f.w - W.wt))
                if not D <= goal:
                    raise Violation("no-recovery:" + k, f"misalignment {D:.4g} after {have} clean exciting samples "
                                                        f"(started at {D0:.4g}, {M} samples should bring it below {goal:.4g})")
                ctx.count("recoveries")
                ctx.log(np.array(f.w))
                ctx.count("recovery_samples", have)
    ctx.count("clean_samples_judged", judged)
    ctx.mark(k, trace, [q.get("in") for q in case["phases"]], case["feed"])
    ctx.log(np.array(f.w))
    ctx.nontrivial = judged > 0 or case["recover"]


def feed(f, spec, case, S, batches, wt, clean, dirty, order, rng, ctx):
    k, p = spec["k"], spec["p"]
    judged = 0
    for b in batches:
        while b:
            style = case["feed"] if case["feed"] != "mixed" else rng.choice(["run", "adapt", "rt"])
            m = len(b) if style != "run" else rng.randint(1, len(b))
            ix, b = b[:m], b[m:]
            X, d = np.array([S[i][0] for i in ix]), np.array([S[i][1] for i in ix])
            before = np.array(f.w)
            if style == "run":
                _, _, rows = call("run", f.run, d, X)
                ws = [np.array(r) for r in rows] + [np.array(f.w)]
            else:
                ws = [before]
                for j in range(len(ix)):
                    if style == "rt":
                        call("predict", f.predict, X[j])
                    call("adapt", f.adapt, d[j], X[j])
                    ws.append(np.array(f.w))
            if not clean:
                dirty = order
                continue
            for j in range(len(ix)):
                pw = float(X[j] @ X[j])
                ok = (k == "LMS" and 0 < p["mu"] * pw <= 2) or (k == "NLMS" and 0 < p["mu"] <= 2) or \
                    (k == "AP" and 0 < p["mu"] <= 2 and dirty <= 1)
                dirty = max(0, dirty - 1)
                if not ok or not np.all(np.isfinite(ws[j])):
                    continue
                a, c = float(np.linalg.norm(ws[j] - wt)), float(np.linalg.norm(ws[j + 1] - wt))
                slack = 1e-9 * (a + float(np.linalg.norm(wt)))
                if not c <= a + slack:
                    raise Violation("worse:" + k, f"one clean sample (|x|^2 = {pw:.4g}, parameters {p}) moved the misalignment "
                                                  f"from {a!r} to {c!r}")
                judged += 1
    return dirty, judged


def simplify(case):
    for q, ph in enumerate(case["phases"]):
        if ph.get("N", 1) > 1:
            yield dict(case, phases=case["phases"][:q] + [dict(ph, N=ph["N"] // 2)] + case["phases"][q + 1:])
    if case["feed"] != "adapt":
        yield dict(case, feed="adapt")
    if case["recover"]:
        yield dict(case, recover=False)
    f = case["f"]
    if f["w"] != "zeros":
        yield dict(case, f=dict(f, w="zeros"))
