"""C12: novelty scores are causal, window-local and recomputable after a restart."""
import numpy as np

from ..app import FORMS, form
from ..core import HarnessError, Hang, SimInterrupt, Violation, call, chance, describe, lib, pick, r6
from ..sched import trace_call
from ..world import build, gen_data, gen_filter, make_data, transport

ID = "C12"
CASES = {"quick": 3000, "thorough": 150000}
LISTS = ["polls", "monitors"]
RULE = ("One run = a weight history that grows row by row (from a real filter on a perturbed stream, or synthetic with "
        "steps, stuck phases, ties and heavy tails) while monitors score it at simulated poll times, stall, are killed at a "
        "chosen line of a call and restart with only the most recent rows; every score of every poll is compared with "
        "earlier scores of that sample and with the formula. Non-trivial: at least two polls with compared samples.")
REAL = ["padasip.detection (learning_entropy, ELBND, ESE)", "padasip.filters as source of weights", "scipy.stats.genpareto",
        "numpy"]
STUB = ["sample source, arrival times", "monitor process (polls, crashes, restarts with a bounded log)"]
ASSUME = ["the first `order` rows of a history have no increment: scores whose window contains them are checked for "
          "stability over time, not against the formula",
          "the generalized Pareto fit itself is SciPy's, in the code and in the formula",
          "ESE improbabilities below 1e-10 are only required to be that small"]
COVER = "monitoring situations (detector and parameters, kept rows relative to the window, poll pattern)"


def gen(rng, tier, i):
    kind = pick(rng, "filter", "walk", "heavy", "int", "stuck", "steps", "ar")
    N = rng.randint(6, 60) if chance(rng, 0.85) else rng.randint(60, 160)
    long = chance(rng, 0.025)
    if long:
        N = rng.randint(160, 900) if chance(rng, 0.85) else rng.randint(900, 2600)
    mons = []
    ese = not long and chance(rng, 0.12)
    for _ in range(pick(rng, 1, 1, 2)):
        t = "ESE" if ese else pick(rng, "LEm", "LEm", "LEd", "LEd", "ELBND")
        m = {"t": t}
        if t in ("LEm", "LEd"):
            m["m"] = pick(rng, 1, 2, 3, 4, 5, 8, 10, 16, rng.randint(1, max(2, N - 2)))
            m["order"] = pick(rng, 1, 1, 2, 2, 3, 4)
            m["dflt"] = chance(rng, 0.1)
            if m["dflt"]:
                m["m"], m["order"] = 10, 1
            if t == "LEm":
                m["alpha"] = [pick(rng, 0.5, 1.0, 2.0, 4.0, 1.5, 8.0, 1, 2, 3, 8, 0.0) if chance(rng, 0.5) else r6(rng.uniform(0.2, 9))
                              for _ in range(rng.randint(1, 6) if chance(rng, 0.9) else rng.randint(7, 20))]
                m["ac"] = pick(rng, "list", "list", "tuple", "array", "array")
        elif t == "ELBND":
            m["function"] = pick(rng, "max", "sum")
            m["dflt"] = m["function"] == "max" and chance(rng, 0.3)
        else:
            m["window"] = pick(rng, 12, 20, 22, 25, 30, 33)
            m["pot"] = pick(rng, "10%", "30%", "sqrt", "log10", "35%", "log10log10")
            if not mons and chance(rng, 0.06):                # the defaults; too long a history for other windows
                m.update(window=1000, pot="10%", dflt=True)
            N = m["window"] + rng.randint(2, 12)
            ese = True
        mons.append(m)
        if m["t"] == "ESE" and m.get("dflt"):
            break
    if ese:
        N = max(N, max(m.get("window", 0) for m in mons) + 3)
    rec = gen_data(rng, n=(rng.randint(1, 5) if chance(rng, 0.96) else pick(rng, 9, 17, 33)) if not ese else rng.randint(1, 2) if chance(rng, 0.92) else rng.randint(3, 8), N=N)
    case = {"src": kind, "data": rec, "s": rng.randrange(1 << 30), "monitors": mons}
    if kind == "filter":
        case["f"] = gen_filter(rng, rec, kinds=["NLMS", "LMS", "RLS", "GNGD", "AP"], tame=True)
        case["f"]["via"] = "class"
    if not ese and chance(rng, 0.1):                        # rows a broken or diverged model delivered
        case["bad"] = [[rng.randrange(N), pick(rng, "nan", "inf", "-inf", "nan", "e"), rng.randrange(8)]
                       for _ in range(rng.randint(1, 3))]
    # arrival of rows and polls
    batches, cnt, t = transport(rng, N, faults=False)
    ends, k = [], 0
    for b in batches:
        k += len(b)
        ends.append(k)
    polls = []
    base = 0
    step = max(1, len(ends) // (6 if ese else 14))
    for j, e in enumerate(ends):
        if j % step and e != N:
            continue
        p = {"n": e}
        if chance(rng, 0.2):
            w = max([q.get("m", 0) + q.get("order", 1) for q in mons] + [q.get("window", 0) + 1 for q in mons])
            p["keep"] = pick(rng, 1, 2, w, w + 1, w - 1, w + 2, rng.randint(1, N))
        if chance(rng, 0.15):
            p["kill"] = rng.randint(1, 80)
        if chance(rng, 0.15):
            p["twice"] = True
        polls.append(p)
    if not polls or polls[-1]["n"] != N:
        polls.append({"n": N})
    if not ese and not case.get("bad") and chance(rng, 0.12):   # how the logger stores the rows
        case["type"] = pick(rng, "int64", "int32", "int16", ">i2") if chance(rng, 0.5) else "float32"
        if chance(rng, 0.5):                                    # the whole range of the type is used
            case["type"] = pick(rng, "int8", "uint8", "uint16", "int16", ">i2", "float16", "uint32")
            case["wide"] = True
    case.update(polls=polls, layout=pick(rng, "view", "copy", "copy", "fortran", *FORMS), t=round(t, 4))
    return case


# ------------------------------------------------------------------ the world
def history(case):
    """(weights, errors): N rows."""
    rec, N, n = case["data"], case["data"]["N"], case["data"]["n"]
    g = np.random.Generator(np.random.PCG64(case["s"]))
    src = case["src"]
    if src == "filter":
        X, d, _ = make_data(rec)
        d = np.array(d)
        if g.random() < 0.7:
            d[int(g.integers(0, N))] += 5 * (1 + np.std(d))
        f = build(case["f"])
        y, e, w = f.run(d, X)
        w, e = np.array(w), np.array(e)
        if not np.all(np.isfinite(w)) or np.max(np.abs(w)) > 1e12:
            src = "walk"
        else:
            return w, e
    e = g.normal(0, 1, N)
    if src == "walk":
        w = np.cumsum(g.normal(0, 1, (N, n)), axis=0)
    elif src == "heavy":
        w = np.cumsum(g.standard_t(2, (N, n)), axis=0)
    elif src == "int":
        w = np.cumsum(g.integers(-3, 4, (N, n)), axis=0).astype(float)
    elif src == "stuck":
        w = np.cumsum(g.normal(0, 1, (N, n)) * (g.random((N, 1)) < 0.3), axis=0)
    elif src == "steps":
        w = np.cumsum(0.1 * g.normal(0, 1, (N, n)), axis=0)
        for _ in range(3):
            w[int(g.integers(0, N)):] += g.normal(0, 8, n)
    else:
        w = g.normal(0, 1, (N, n))
        for k in range(1, N):
            w[k] = 0.9 * w[k - 1] + 0.3 * w[k]
    return w * rec["scale"], e


# ------------------------------------------------------------------ formulas
def exact_value(a):
    return bool(np.all(a * 64 == np.round(a * 64)) and np.max(np.abs(a), initial=0) < 1e6)


def increments(w, order):
    a = np.array(w, dtype=np.longdouble)
    for _ in range(order):
        a = a[1:] - a[:-1]
    return np.abs(a)                        # row j belongs to sample j+order


def oracle(mon, w, e):
    """lo[k], hi[k] (arrays or scalars) of the score of every sample of the whole
    history; None where the formula is not defined."""
    N, n = w.shape
    t = mon["t"]
    out = []
    if t in ("LEm", "LEd"):
        m, order = mon["m"], mon["order"]
        dw = increments(w, order)
        # differences of order p cancel: rounding relative to the weights
        scale = float(np.max(np.abs(w), initial=0)) * 2 ** order
        ex = exact_value(w)
        for k in range(N):
            if k < m:
                z = np.zeros(n) if t == "LEd" else 0.0
                out.append((z, z))
                continue
            if k - m < order:
                out.append(None)
                continue
            win, cur = dw[k - m - order:k - order], dw[k - order]
            if t == "LEd":
                av = np.mean(win, axis=0)
                sd = np.sqrt(np.mean((win - av) ** 2, axis=0))
                v = ((cur - av) / (sd + np.longdouble(1e-10))).astype(float)
                s = scale * (0.0 if np.all(win == 0) and np.all(cur == 0) else 1.0)
                tol = (1e-13 * s + np.abs(v) * 1e-13 * s) / (sd.astype(float) + 1e-10) + 1e-9 * np.abs(v)
                # a deviation that rounding alone can produce says nothing
                # (weights that stood still all the time deviate by exactly zero)
                still = np.all(w[k - m - order:k] == w[k - 1], axis=0)
                tol = np.where((sd.astype(float) < 1e-12 * s) & ~still, tol + np.abs(v), tol)
                out.append((v - tol, v + tol))
            else:
                av = np.mean(win, axis=0)
                lo = hi = 0
                for a in mon["alpha"]:
                    th = av * a
                    zero = (np.max(np.abs(win), axis=0) == 0) & (cur == 0)
                    sure = (m & (m - 1)) == 0 and a * 64 == round(a * 64) and ex
                    near = (np.abs(th - cur) <= 1e-12 * scale) & ~zero & (not sure)
                    hit = (th < cur) & ~zero
                    lo += int(np.sum(hit & ~near))
                    hi += int(np.sum(hit | near))
                q = float(n * len(mon["alpha"]))
                out.append((lo / q - 1e-12, hi / q + 1e-12))
    elif t == "ELBND":
        for k in range(N):
            if k == N - 1:
                out.append((0.0, 0.0))
                continue
            v = np.abs((np.array(w[k + 1], dtype=np.longdouble) - w[k]) * e[k])
            v = float(np.max(v) if mon["function"] == "max" else np.sum(v))
            tol = 1e-12 * float(np.max(np.abs(w[k:k + 2]))) * n * abs(float(e[k])) + 1e-300
            out.append((v - tol, v + tol))
    else:
        from scipy.stats import genpareto
        win, meth = mon["window"], mon["pot"]
        dw = np.abs(np.diff(w, axis=0))                 # row j belongs to sample j+1
        num = {"10%": int(0.1 * win), "sqrt": int(np.sqrt(win)), "log10": int(np.log10(win)), "35%": int(0.35 * win), "30%": int(0.3 * win),
               "log10log10": int(win ** (2 / 3) / np.log10(np.log10(win)))}[meth]
        num = max(num, 1)
        for k in range(N):
            if k < win:
                out.append((0.0, 0.0))
                continue
            if k - win < 1:
                out.append(None)
                continue
            tot, small, undefined = 0.0, False, False
            for j in range(n):
                top = np.sort(dw[k - win - 1:k - 1, j])[::-1][:num]
                if dw[k - 1, j] > top[-1]:
                    try:
                        c, loc, sc = genpareto.fit(top, floc=top[-1])
                    except Exception:  # SciPy cannot fit this window
                        undefined = True
                        break
                    p = 1 - genpareto.cdf(dw[k - 1, j], c, loc, sc)
                    if not np.isfinite(p):
                        undefined = True
                        break
                    if p < 1e-10:
                        small = True
                        p = 1e-10
                    tot -= np.log10(p)
            if undefined:
                out.append(None)
            elif small:
                out.append((tot - 1e-6, np.inf))
            else:
                tol = 1e-6 * max(1.0, tot)
                out.append((tot - tol, tot + tol))
    return out


def start_of(mon):
    """How many rows a restarted monitor needs before its scores count."""
    return mon["m"] + mon["order"] if mon["t"] in ("LEm", "LEd") else mon["window"] + 1 if mon["t"] == "ESE" else 0


def minimum(mon):
    return 1


def score(mon, w, e):
    det = lib().detection
    t = mon["t"]
    if t == "LEm":
        al = {"list": list, "tuple": tuple, "array": np.array}[mon["ac"]](mon["alpha"])
        if mon["dflt"]:
            return det.learning_entropy(w, alpha=al)
        return det.learning_entropy(w, m=mon["m"], order=mon["order"], alpha=al)
    if t == "LEd":
        return det.learning_entropy(w) if mon["dflt"] else det.learning_entropy(w, m=mon["m"], order=mon["order"])
    if t == "ELBND":
        return det.ELBND(w, e) if mon["dflt"] else det.ELBND(w, e, function=mon["function"])
    if mon.get("dflt"):
        return det.ESE(w)
    return det.ESE(w, window=mon["window"], pot_method=mon["pot"])


def run(case, ctx):
    w, e = history(case)
    N, n = w.shape
    if case.get("type"):
        t = np.dtype(case["type"])
        if case.get("wide"):
            lo, hi = (-30000, 30000) if t.kind == "f" else (int(np.iinfo(t).min), int(np.iinfo(t).max))
            w = np.clip(np.round(lo + (w - w.min()) / (np.ptp(w) + 1e-9) * (hi - lo)), lo, hi)
        elif t.kind == "f":
            w = np.clip(np.round(w * 64) / 64, -60000, 60000)
        else:
            w = np.clip(np.round(4 * w), -2000, 2000)
        w, e = w.astype(t), e.astype("float32") if t.kind == "f" else e
    cw, ce = w.astype("float64"), e.astype("float64")
    rows, errs = [], []
    if case.get("bad"):
        w, e = np.array(w), np.array(e)
        for q, v, c in case["bad"]:
            if q < N and v == "e":
                e[q] = np.nan
                errs.append(q)
            elif q < N:
                w[q, c % n] = float(v)
                rows.append(q)
            ctx.count("fault:row_not_finite")
    ctx.simtime += case["t"]
    polls_done = 0
    for mon in case["monitors"]:
        if case.get("type") == "float32" and mon["t"] != "ELBND":      # means in single precision are legal
            continue
        orc = oracle(mon, cw, ce)
        if rows or errs:                    # formula only where no such row is looked at
            for q in rows:
                for k in range(max(0, q - 1), q + 1) if mon["t"] == "ELBND" else range(q, min(N, q + start_of(mon) + 1)):
                    orc[k] = None
            if mon["t"] == "ELBND":
                for q in errs:
                    orc[q] = None
        seen = {}
        base = 0
        lay = case["layout"]
        for p in case["polls"]:
            k = min(p["n"], N)
            if "keep" in p:
                base = max(base, k - max(1, p["keep"]))
                ctx.count("fault:restart_with_recent_rows")
            if k - base < minimum(mon):
                continue
            W = w[base:k] if lay == "view" else form(w[base:k], lay) if lay in FORMS else np.array(w[base:k], order="F" if lay == "fortran" else "C")
            E = e[base:k] if lay == "view" else form(e[base:k], lay) if lay in FORMS else np.array(e[base:k])
            if "kill" in p:
                _, ex, _, where = trace_call(lambda: score(mon, W, E), fault=(p["kill"], "interrupt"))
                if where is not None:
                    ctx.count("fault:killed_in_call")
                if ex is not None and not isinstance(ex, SimInterrupt):
                    raise ex if isinstance(ex, (HarnessError, Hang)) else \
                        Violation("unexpected-exception:" + mon["t"], f"{type(ex).__name__}: {ex}")
            for _ in range(2 if p.get("twice") else 1):
                s = np.asarray(call(mon["t"], score, mon, W, E))
                check(mon, s, orc, seen, base, k, N, n, ctx, p)
            polls_done += 1
            ctx.log(s)
            ctx.mark(mon["t"], mon.get("m"), mon.get("order"), mon.get("window"), mon.get("function"),
                     np.sign(k - base - start_of(mon)), base > 0, "kill" in p, case["src"])
    ctx.nontrivial = polls_done >= 2


def check(mon, s, orc, seen, base, k, N, n, ctx, p):
    t = mon["t"]
    want = (k - base, n) if t == "LEd" else (k - base,)
    if s.shape != want:
        raise Violation("score-shape", f"{t} over {k - base} rows gave shape {s.shape}, expected {want}")
    need = start_of(mon)
    first = mon["m"] if t in ("LEm", "LEd") else mon["window"] if t == "ESE" else 0
    for j in range(k - base):
        q = base + j
        v = s[j]
        if j < first:
            if not np.all(v == 0):
                raise Violation(t + ":not-zero-at-start", f"sample {j} of {k - base} rows scores {v}, but only from "
                                                          f"{first} samples on a score exists")
            continue
        if t == "ELBND" and q == k - 1:
            if v != 0 and orc[q] is not None:
                raise Violation("ELBND:newest-sample", f"the newest sample scores {v} before the next one arrived")
            continue
        if base > 0 and j < need:
            continue
        o = orc[q]
        if o is not None:
            if not (np.all(v >= o[0]) and np.all(v <= o[1])):
                raise Violation(t + ":formula", f"sample {q} (history kept from row {base}, polled at row {k}, {mon}) scores "
                                                f"{describe(v)}, the formula gives {describe((o[0] + o[1]) / 2)}")
            ctx.count("scores_against_formula")
        elif base == 0:
            # no formula here, but the value must never change
            if q in seen and not np.array_equal(seen[q], v, equal_nan=True):
                if not np.allclose(seen[q], v, rtol=1e-6, equal_nan=True):
                    raise Violation(t + ":not-causal", f"sample {q} scored {describe(seen[q])} at first and {describe(v)} "
                                                       f"when {k} rows had arrived")
            seen.setdefault(q, np.array(v))
        ctx.count("scores_checked")


def simplify(case):
    for k, p in enumerate(case["polls"]):
        for q in ("kill", "twice", "keep"):
            if q in p:
                c = dict(p)
                del c[q]
                yield dict(case, polls=case["polls"][:k] + [c] + case["polls"][k + 1:])
    rec = case["data"]
    if rec["N"] > 4:
        for N in (rec["N"] // 2, rec["N"] - 1):
            yield dict(case, data=dict(rec, N=N), polls=[p for p in case["polls"] if p["n"] <= N] or [{"n": N}])
    if case["src"] != "walk":
        yield dict(case, src="walk")
