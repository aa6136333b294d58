"""C15: segmented preprocessing and error scoring equals whole-series processing."""
import array

import numpy as np

from ..app import form
from ..core import HarnessError, Hang, Violation, call, chance, describe, lib, maxdiff, pick, r6
from ..models import LD
from ..sched import trace_call
from ..world import PCM, quantise, transport

ID = "C15"
CASES = {"quick": 6000, "thorough": 250000}
LISTS = ["cuts", "stages"]
RULE = ("One run = a series as a faulty transport delivers it (lost, duplicated, reordered samples), consumed segment by "
        "segment as batches arrive by several stages (standardise, undo, history matrix with carried values, error scores) "
        "that are preempted for one another, killed inside a call and repeated, or restarted with only the last n-1 values; "
        "everything emitted is compared with the formula over the whole delivered series and with one call over the whole "
        "series. Non-trivial: at least two segments.")
REAL = ["padasip.preprocess (standardize, standardize_back, input_from_history)", "padasip.misc error measures", "numpy"]
STUB = ["source and transport of the series", "consumer that cuts it into segments, keeps n-1 values and restarts"]
ASSUME = ["offset and scale are fixed for the whole series; values are compared up to a few roundings of double precision",
          "differences are formed in double precision"]
COVER = "segmentations (stage kinds, container and number type, segment lengths relative to n)"

TYPES = ["float64"] * 4 + ["list", "tuple", "intlist", "view", "rev", "readonly", "buffer", "swapped", "unaligned", "subclass"] + list(PCM) + ["int64", "uint32"]
STAGES = ["std", "back", "round", "hist", "hist", "score", "logse"]


def gen(rng, tier, i):
    N = pick(rng, 1, 2, 3) if chance(rng, 0.08) else rng.randint(2, 60) if chance(rng, 0.85) else rng.randint(60, 700)
    long = chance(rng, 0.02)
    if long:
        N = rng.randint(1500, 9000)
    ty = pick(rng, *TYPES)
    case = {"s": rng.randrange(1 << 30), "N": N, "ty": ty,
            "kind": pick(rng, "white", "white", "walk", "const", "int", "spikes", "zeros", "offset", "ramp", "broken"),
            "scale": 1.0 if chance(rng, 0.6) else pick(rng, 1e-6, 1e-3, 1e3, 1e6, 1e-15, 1e-40, 1e14, 1e40)}
    batches, cnt, t = transport(rng, N, faults=rng.random() < 0.6)
    seq = [k for b in batches for k in b]
    cuts, k = [], 0
    for b in batches:
        left = len(b)
        while left:
            m = left if chance(rng, 0.6) else rng.randint(1, left)
            left -= m
            c = {"m": m}
            if chance(rng, 0.15):
                c["kill"] = rng.randint(1, 14)
            if chance(rng, 0.2):
                c["restart"] = pick(rng, 0, 0, 0, 1, 2, 5)      # values kept beyond the last n-1
            if chance(rng, 0.15):
                c["poll"] = True                                # someone asks for the whole series now
            if chance(rng, 0.1):
                c["empty"] = True                               # a poll that found nothing
            cuts.append(c)
    if len(cuts) > 60:
        cuts = cuts[:60]
    if long:
        cuts, k = [], 0
        while k < len(seq):
            cuts.append({"m": pick(rng, 700, 2000, 3000, 5000) if chance(rng, 0.8) else rng.randint(1, 100)})
            k += cuts[-1]["m"]
    elif cuts and chance(rng, 0.1):
        cuts = [dict(m=1) for _ in seq][:40]
    stages = []
    for _ in range(rng.randint(1, 4)):
        st = {"t": pick(rng, *STAGES)}
        if st["t"] in ("std", "back", "round"):
            st["a"] = pick(rng, 0.0, 0, 1.0, -3.5, 2, r6(rng.gauss(0, 10)), r6(rng.gauss(0, 1e4)))
            st["b"] = pick(rng, 1.0, 1, 2.0, 0.5, -2.0, 3, r6(rng.uniform(0.1, 9)), r6(10 ** rng.uniform(-5, 5)))
            st["kw"] = chance(rng, 0.5)
            st["np"] = chance(rng, 0.2)
        elif st["t"] == "hist":
            st["n"] = pick(rng, 1, 2, 3, 4, 5, 7, 10, 20) if chance(rng, 0.9) else rng.randint(1, min(N + 3, 90))
            st["bias"] = pick(rng, True, False, False, None)
        else:
            st["form"] = pick(rng, "e", "pair", "pair", "mixed")
            st["kw"] = chance(rng, 0.4)
            if chance(rng, 0.2):                     # the other series comes from elsewhere
                st["other"] = pick(rng, "first", "second"), pick(rng, "list", "view", "tuple", "swapped", "readonly")
        stages.append(st)
    case.update(seq=seq, cuts=cuts, stages=stages, order=rng.randrange(1 << 20), net=cnt, t=round(t, 4))
    return case


# ------------------------------------------------------------------ the world
def base_type(ty):
    return ty if ty in PCM or ty in ("int64", "uint32") else "int64" if ty == "intlist" else "float64"


def bt_float(case):
    return base_type(case["ty"]) == "float64"


def series(case, salt=0):
    """The values the source produces, exactly representable in their type, as float64."""
    g = np.random.Generator(np.random.PCG64(case["s"] + salt))
    N, k = case["N"], case["kind"]
    if k == "walk":
        x = np.cumsum(g.normal(0, 1, N))
    elif k == "const":
        x = np.full(N, g.normal())
    elif k == "int":
        x = g.integers(-5, 6, N).astype(float)
    elif k == "spikes":
        x = g.normal(0, 1, N)
        x[g.random(N) < 0.1] *= 1e5
    elif k == "zeros":
        x = g.normal(0, 1, N) * (g.random(N) < 0.4)
    elif k == "offset":
        x = g.normal(0, 1, N) + g.uniform(-1e3, 1e3)
    elif k == "broken":                          # what a failing sensor delivers
        x = g.normal(0, 1, N)
        if bt_float(case):
            for _ in range(int(g.integers(1, 4))):
                x[int(g.integers(0, N))] = [np.nan, np.inf, -np.inf, np.nan][int(g.integers(0, 4))]
    elif k == "ramp":
        x = np.arange(N) * g.uniform(-2, 2) + g.normal(0, 0.01, N)
    else:
        x = g.normal(0, 1, N)
    bt = base_type(case["ty"])
    if bt == "float64":
        return x * case["scale"]
    if bt in PCM:
        return quantise(x * PCM[bt][0] + PCM[bt][1], bt)
    return quantise(x * 1000 + (5000 if bt == "uint32" else 0), bt)


def box(v, ty):
    """A segment in the container of the consumer."""
    bt = base_type(ty)
    if ty == "list":
        return [float(q) for q in v]
    if ty == "tuple":
        return tuple(float(q) for q in v)
    if ty == "intlist":
        return [int(q) for q in v]
    a = v.astype(bt)
    if ty == "view":
        big = np.full(2 * len(v) + 1, 77.0)
        big[:2 * len(v):2] = v
        return big[:2 * len(v):2]
    if ty == "rev":
        return np.array(a[::-1])[::-1]
    if ty in ("swapped", "unaligned", "subclass"):
        return form(a, ty)
    if ty == "buffer":
        return array.array("d", a)
    if ty == "readonly":
        a.flags.writeable = False
    return a


def guarded(ctx, cut, st, fn):
    """The call, possibly killed at a line of the library and then repeated."""
    if cut and "kill" in cut:
        r, ex, _, where = trace_call(fn, fault=(cut["kill"], "interrupt"))
        if where is not None:
            ctx.count("fault:killed_in_call")
        if ex is not None and where is None or isinstance(ex, (HarnessError, Hang, Violation)):
            raise ex if isinstance(ex, (HarnessError, Hang, Violation)) else \
                Violation("unexpected-exception:" + st["t"], f"{type(ex).__name__}: {ex}")
    return call(st["t"], fn)


def near(got, want, tol, what, detail):
    got = np.asarray(got)
    if got.dtype.kind not in "fiu" or got.shape != want.shape:
        raise Violation(what, f"{detail}: result of shape {got.shape} and type {got.dtype}, expected shape {want.shape}")
    w = np.asarray(want, dtype=float)
    with np.errstate(all="ignore"):
        ok = (got == w) | np.isfinite(w) & (np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(w))
    if not np.all(ok):
        k = int(np.argmin(ok.ravel())) if ok.ndim else 0
        raise Violation(what, f"{detail}: {describe(got)}, expected {describe(w)} (first difference at {k}, max "
                              f"{maxdiff(got, w)})")


EPS = 2.0 ** -52


class Stage:
    """A consumer of the stream: one call per segment, output collected."""

    def __init__(self, st, case, x1, x2, ctx):
        self.st, self.ctx, self.ty = st, ctx, case["ty"]
        self.x1, self.x2 = x1, x2
        self.pos = 0
        self.out = []
        self.acc = []
        self.kept = np.zeros(0)

    def num(self, v):
        return np.float64(v) if self.st.get("np") else v

    # ---- calls of the library
    def standard(self, seg):
        pre = lib().preprocess
        a, b = self.num(self.st["a"]), self.num(self.st["b"])
        t = self.st["t"]
        if t == "std":
            return pre.standardize(seg, offset=a, scale=b) if self.st["kw"] else pre.standardize(seg, a, b)
        if t == "back":
            return pre.standardize_back(seg, offset=a, scale=b) if self.st["kw"] else pre.standardize_back(seg, a, b)
        return pre.standardize_back(pre.standardize(seg, offset=a, scale=b), a, b)

    def history(self, seg):
        pre = lib().preprocess
        n, bias = self.st["n"], self.st["bias"]
        if bias is None:
            return pre.input_from_history(seg, n)
        return pre.input_from_history(seg, n, bias=bias)

    def args(self, lo, hi, form):
        if form == "pair":
            who, ty = self.st.get("other", ("", ""))
            return (box(self.x1[lo:hi], ty if who == "first" else self.ty), box(self.x2[lo:hi], ty if who == "second" else self.ty))
        return (self.x1[lo:hi] - self.x2[lo:hi],)

    def error(self, fn, args):
        if len(args) == 2 and self.st["kw"]:
            return fn(args[0], x2=args[1])
        return fn(*args)

    # ---- formulas
    def want_standard(self, lo, hi):
        x = self.x1[lo:hi].astype(LD)
        a, b = LD(self.st["a"]), LD(self.st["b"])
        t = self.st["t"]
        m = np.abs(x) + abs(a)
        if t == "std":
            return (x - a) / b, 8 * EPS * m / abs(b)
        if t == "back":
            return x * b + a, 8 * EPS * (np.abs(x * b) + abs(a))
        return x, 16 * EPS * m

    def want_history(self, lo, hi):
        """Windows that end at samples lo..hi-1 of the whole series."""
        n = self.st["n"]
        rows = [self.x1[k - n + 1:k + 1] for k in range(lo, hi) if k >= n - 1]
        w = np.array(rows) if rows else np.zeros((0, n))
        if self.st["bias"]:
            w = np.hstack((w, np.ones((len(w), 1))))
        return w

    def want_errors(self, lo, hi):
        e = (self.x1[lo:hi] - self.x2[lo:hi]).astype(LD)
        n = len(e)
        return {"MAE": np.sum(np.abs(e)) / n, "MSE": np.sum(e * e) / n, "RMSE": np.sqrt(np.sum(e * e) / n)}

    # ---- one segment
    def feed(self, m, cut):
        st, t = self.st, self.st["t"]
        lo, hi = self.pos, self.pos + m
        if t in ("std", "back", "round"):
            r = guarded(self.ctx, cut, st, lambda: self.standard(box(self.x1[lo:hi], self.ty)))
            w, tol = self.want_standard(lo, hi)
            near(r, w, tol, t + ":segment", f"samples {lo}..{hi - 1}, {st}")
            self.out.append(np.array(r, dtype=float))
        elif t == "hist":
            n = st["n"]
            if "restart" in cut:
                keep = n - 1 + cut["restart"]
                self.kept = self.kept[len(self.kept) - min(keep, len(self.kept)):]
                self.ctx.count("fault:restart_with_last_values")
            seg = np.concatenate((self.kept, self.x1[lo:hi]))
            r = np.asarray(guarded(self.ctx, cut, st, lambda: self.history(box(seg, self.ty))))
            base = hi - len(seg)
            w = self.want_history(max(base + n - 1, 0), hi)
            self.windows(r, w, f"samples {base}..{hi - 1}, {st}")
            # windows that end at a new sample
            new = w[len(w) - min(len(w), m):]
            got = r[len(r) - min(len(r), m):]
            if len(new):
                self.out.append(np.array(got))
            self.kept = seg if cut.get("poll") else seg[max(0, len(seg) - n + 1):] if n > 1 else seg[:0]
        else:
            form = st["form"] if st["form"] != "mixed" else ("pair" if (lo + hi) % 2 else "e")
            if t == "logse":
                r = guarded(self.ctx, cut, st, lambda: self.error(lib().misc.logSE, self.args(lo, hi, form)))
                self.logse(r, lo, hi)
                self.out.append(np.array(r, dtype=float))
            else:
                self.acc.append((m, self.scores(lo, hi, form, cut)))
        self.pos = hi

    def empty(self):
        """A poll without data: nothing may come out and nothing may break."""
        if self.st["t"] in ("std", "back", "round"):
            r = call(self.st["t"], self.standard, box(np.zeros(0), self.ty))
        elif self.st["t"] == "hist":
            seg = self.kept[max(0, len(self.kept) - self.st["n"] + 1):] if self.st["n"] > 1 else self.kept[:0]
            r = call("hist", self.history, box(seg, self.ty))
        elif self.st["t"] == "logse":
            r = call("logse", self.error, lib().misc.logSE, self.args(0, 0, "e"))
        else:
            return
        if len(r) != 0:
            raise Violation(self.st["t"] + ":empty", f"{len(r)} results from no new sample")

    def windows(self, r, w, detail):
        if len(r) != len(w):
            raise Violation("hist:count", f"{len(r)} windows instead of {len(w)}; {detail}")
        if len(w) == 0:
            return
        if r.shape != w.shape or not np.array_equal(np.asarray(r, dtype=float), w, equal_nan=True):
            raise Violation("hist:windows", f"{describe(r)}, expected {describe(w)}; {detail}")

    def logse(self, r, lo, hi):
        e = (self.x1[lo:hi] - self.x2[lo:hi]).astype(LD)
        with np.errstate(all="ignore"):
            near(r, 10 * np.log10(e * e), 1e-9, "logSE:segment", f"samples {lo}..{hi - 1}")

    def scores(self, lo, hi, form, cut=None):
        misc = lib().misc
        a = self.args(lo, hi, form)
        w = self.want_errors(lo, hi)
        got = {}
        for name in ("MAE", "MSE", "RMSE"):
            fn = getattr(misc, name)
            v = guarded(self.ctx, cut, self.st, lambda: self.error(fn, a))
            got[name] = v
            tol = 1e-12 * max(1.0, (hi - lo) / 1000) * float(w[name]) + 1e-300
            near(v, np.asarray(w[name]), tol, name + ":segment", f"samples {lo}..{hi - 1}, form {form}")
            u = call("get_mean_error", lambda: misc.get_mean_error(*a, function=name))
            near(u, np.asarray(w[name]), tol, "get_mean_error:" + name, f"samples {lo}..{hi - 1}")
            if name == "MSE":
                u = call("get_mean_error", lambda: misc.get_mean_error(*a))
                near(u, np.asarray(w[name]), tol, "get_mean_error:default", f"samples {lo}..{hi - 1}")
        return got

    # ---- the whole series delivered so far
    def whole(self):
        t, hi = self.st["t"], self.pos
        if hi == 0:
            return
        if t in ("std", "back", "round"):
            r = call(t, self.standard, box(self.x1[:hi], self.ty))
            w, tol = self.want_standard(0, hi)
            near(r, w, tol, t + ":whole", f"{hi} samples, {self.st}")
            near(np.concatenate(self.out), np.asarray(r, dtype=LD), 2 * tol, t + ":segments-differ", f"{hi} samples, {self.st}")
        elif t == "hist":
            r = np.asarray(call(t, self.history, box(self.x1[:hi], self.ty)))
            w = self.want_history(0, hi)
            self.windows(r, w, f"whole series of {hi}, {self.st}")
            got = np.concatenate(self.out) if self.out else w[:0]
            if not np.array_equal(np.asarray(got, dtype=float), w, equal_nan=True):
                raise Violation("hist:segments-differ", f"the segments gave {len(got)} windows, the whole series {len(w)} or "
                                                        f"others; {self.st}")
        elif t == "logse":
            for form in ("e", "pair"):
                self.logse(call(t, self.error, lib().misc.logSE, self.args(0, hi, form)), 0, hi)
        else:
            for form in ("e", "pair"):
                got = self.scores(0, hi, form)
            w = self.want_errors(0, hi)
            for name, v in (("MAE", sum(m * g["MAE"] for m, g in self.acc) / hi),
                            ("MSE", sum(m * g["MSE"] for m, g in self.acc) / hi),
                            ("RMSE", np.sqrt(sum(m * g["RMSE"] ** 2 for m, g in self.acc) / hi))):
                near(v, np.asarray(got[name], dtype=LD), 1e-11 * float(w[name]) + 1e-300, name + ":segments-differ",
                     f"accumulated over {len(self.acc)} segments")


def run(case, ctx):
    seq = case["seq"]
    x1 = series(case)[seq] if seq else np.zeros(0)
    x2 = series(case, 1)[seq] if seq else np.zeros(0)
    for k, v in case["net"].items():
        ctx.count("fault:" + k, v)
    ctx.simtime += case["t"]
    g = np.random.Generator(np.random.PCG64(case["order"]))
    stages = [Stage(st, case, x1, x2, ctx) for st in case["stages"]]
    nseg = 0
    for cut in case["cuts"]:
        lo = stages[0].pos if stages else 0
        m = min(cut["m"], len(seq) - lo)
        if cut.get("empty"):
            for s in stages:
                s.empty()
            ctx.count("fault:empty_poll")
        if m <= 0:
            continue
        nseg += 1
        for k in g.permutation(len(stages)):
            stages[int(k)].feed(m, cut)
        if cut.get("poll"):
            for s in stages:
                s.whole()
            ctx.count("whole_series_polls")
    for s in stages:
        s.whole()
        ctx.count("stage_" + s.st["t"])
        for o in s.out:
            ctx.log(o)
        ctx.mark(s.st["t"], s.st.get("n"), s.st.get("bias"), s.st.get("form"), case["ty"],
                 [min(c["m"], 25) for c in case["cuts"]][:12])
    ctx.count("segments", nseg)
    ctx.count("type_" + case["ty"])
    ctx.nontrivial = nseg >= 2


def simplify(case):
    for k, c in enumerate(case["cuts"]):
        for q in ("kill", "restart", "poll", "empty"):
            if q in c:
                d = dict(c)
                del d[q]
                yield dict(case, cuts=case["cuts"][:k] + [d] + case["cuts"][k + 1:])
        if c["m"] > 1:
            yield dict(case, cuts=case["cuts"][:k] + [dict(c, m=c["m"] // 2)] + case["cuts"][k + 1:])
    if case["ty"] != "float64":
        yield dict(case, ty="float64")
    if case["kind"] != "white":
        yield dict(case, kind="white")
    if case["scale"] != 1.0:
        yield dict(case, scale=1.0)
