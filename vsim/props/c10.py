"""C10: results do not depend on hash order, clock, process or import order."""
import json
import os
import pickle
import random
import shutil
import subprocess
import tempfile

import numpy as np

from ..core import REPO, HarnessError, Violation, chance, describe, fresh_lib, lib, maxdiff, pick, same
from ..environs import Environs, ILabel, SLabel, import_in_order, in_thread
from ..programs import Program, call_args, flat, fn_of, gen_call, gen_form, gen_program, similar_call
from ..world import gen_data, gen_filter

ID = "C10"
CASES = {"quick": 5000, "thorough": 200000}
LISTS = ["progs"]
RULE = ("One run = the same computations (filter and network sessions, stateless functions, seeded random ones) executed "
        "twice in different surroundings: jumping, backward or frozen clocks, other process identity, entropy, thread, "
        "import order, generator state where no randomness is documented, hash order of label objects, and after other or "
        "similar library calls. Every 300th run executes a battery in two real processes with different PYTHONHASHSEED. "
        "Non-trivial: at least one computation compared.")
REAL = ["the whole of padasip", "numpy", "scipy.stats", "the interpreter's import system and hash seed (battery runs)"]
STUB = ["clocks, process identity, entropy sources, environment variables", "hash values of label objects",
        "calls made before by the same application"]
ASSUME = ["the other process runs on the same machine with the same NumPy and one BLAS thread"]
COVER = "situations (computation, difference in the surroundings)"


def gen_one(rng):
    t = pick(rng, "prog", "prog", "fn", "fn", "lda", "lda", "mlp", "rand", "filter_data", "ese", "lookup")
    if t == "lookup":
        return gen_lookup(rng)
    if t == "prog":
        return {"t": "prog", "p": gen_program(rng, kind="filter", maxN=12 if chance(rng, 0.95) else 80), "rs": None}
    if t == "mlp":
        p = gen_program(rng, kind="mlp")
        return {"t": "prog", "p": p, "rs": None}
    if t == "fn":
        return {"t": "fn", "c": gen_form(rng, gen_call(rng)) if chance(rng, 0.25) else gen_call(rng)}
    if t == "ese":
        return {"t": "fn", "c": gen_call(rng, fn="ESE" if chance(rng, 0.3) else "learning_entropy")}
    if t == "filter_data":
        return {"t": "fn", "c": gen_call(rng, fn="filter_data")}
    if t == "lda":
        n = rng.randint(2, 6)
        return {"t": "lda", "s": rng.randrange(1 << 30), "n": n, "N": rng.randint(24, 60), "cl": rng.randint(2, 6),
                "lab": pick(rng, "str", "str", "slabel", "slabel", "int", "ilabel", "long"), "k": rng.randint(1, n - 1),
                "disc": chance(rng, 0.3)}
    rec = gen_data(rng, n=rng.randint(1, 4) if chance(rng, 0.6) else pick(rng, 6, 9, 12, 17, 33, 65), N=rng.randint(2, 10) if chance(rng, 0.95) else rng.randint(20, 200))
    f = gen_filter(rng, rec, tame=True)
    f["w"] = {"rs": rng.randrange(1 << 30)}
    f["via"] = pick(rng, "class", "factory", "get")
    return {"t": "rand", "p": {"t": "filter", "data": rec, "f": f, "ops": [{"o": "run", "ix": list(range(rec["N"]))}]}}


def gen_lookup(rng):
    """Names of models, functions, activations and initial weights: known, cut short, misspelled."""
    kind = pick(rng, "get_filter", "AdaptiveFilter", "filter_data", "get_mean_error", "ELBND", "ESE", "w", "activation")
    return {"t": "lookup", "k": kind, "cut": rng.randint(0, 12), "end": chance(rng, 0.2), "case": pick(rng, "", "u", "l", "t")}


def gen(rng, tier, i):
    if i % 301 == 300:
        return {"t": "proc", "progs": [{"t": "lookup", "k": k, "cut": c, "end": e, "case": ""} for k in NAMES
                                       for c in range(13) for e in (False, True)] +
                [gen_one(rng) for _ in range(120)],
                "a": {"hash": str(rng.randrange(1, 1 << 31)), "env": rng.randrange(1 << 30), "order": 1, "early": False},
                "b": {"hash": str(rng.randrange(1, 1 << 31)), "env": rng.randrange(1 << 30),
                      "order": rng.randrange(1 << 20), "early": chance(rng, 0.5)}}
    return {"t": "in", "progs": [gen_one(rng) for _ in range(rng.randint(1, 4))], "a": rng.randrange(1 << 30),
            "b": rng.randrange(1 << 30), "imp": chance(rng, 0.3), "thread": chance(rng, 0.2),
            "warm": pick(rng, "none", "similar", "similar", "same", "other", "order") if chance(rng, 0.985) else
            pick(rng, "many", "many-same"), "rs": rng.randrange(1 << 20)}


# ------------------------------------------------------------------ execution
MODELS = ["AP", "GMCC", "GNGD", "LLNCOSH", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS", "OCNLMS", "RLS", "SSLMS", "VSLMS_ANG",
          "VSLMS_BENVENISTE", "VSLMS_MATHEWS"]
NAMES = {"get_filter": MODELS, "AdaptiveFilter": MODELS, "filter_data": MODELS, "get_mean_error": ["MAE", "MSE", "RMSE"],
         "ELBND": ["max", "sum"], "ESE": ["10%", "30%", "sqrt", "log10log10"], "w": ["random", "zeros", "ones"],
         "activation": ["sigmoid", "tanh"]}


def lookup(p):
    """What the library makes of names it may or may not know."""
    out = []
    pa = lib()
    g = np.random.Generator(np.random.PCG64(5))
    x, d = g.normal(0, 1, (4, 2)), g.normal(0, 1, 4)
    h = np.cumsum(g.normal(0, 1, (26, 1)), axis=0)
    for full in NAMES[p["k"]]:
        s = full[p["cut"]:] if p["end"] else full[:p["cut"]]
        s = {"": s, "u": s.upper(), "l": s.lower(), "t": s.title()}[p["case"]]
        try:
            np.random.seed(3)
            k = p["k"]
            if k == "get_filter":
                v = [pa.filters.get_filter(s).__name__]
            elif k == "AdaptiveFilter":
                v = [type(pa.filters.AdaptiveFilter(s, n=2)).__name__]
            elif k == "filter_data":
                v = flat(pa.filters.filter_data(d, x, s))
            elif k == "get_mean_error":
                v = flat(pa.misc.get_mean_error(d, x[:, 0], s))
            elif k == "ELBND":
                v = flat(pa.detection.ELBND(x, d, s))
            elif k == "ESE":
                v = flat(pa.detection.ESE(h, 24, s))
            elif k == "w":
                v = flat(pa.filters.FilterLMS(2, w=s).w)
            else:
                v = flat(pa.ann.NetworkMLP([2], 2, activation=s).predict(x[0]))
        except Exception as ex:  # noqa
            v = ["exception " + type(ex).__name__]
        out += v
    return out


def labels(p, g):
    k, lab = p["cl"], p["lab"]
    ix = np.arange(p["N"]) % k
    g.shuffle(ix)
    if lab in ("str", "long"):
        names = ["class-%d-%s" % (j, chr(97 + (j * 7) % 26) * (1 + (j * 5) % 4)) for j in range(k)] if lab == "long" else \
            ["zyxwvu"[j] for j in range(k)]
        return np.array([names[j] for j in ix])
    if lab == "int":
        return np.array([[7, 1, 1000, -3, 12, 64][j] for j in ix])
    out = np.empty(len(ix), dtype=object)
    for q, j in enumerate(ix):
        out[q] = SLabel("zyxwvu"[j]) if lab == "slabel" else ILabel([7, 1, 1000, -3, 12, 64][j])
    return out


def execute(p, salt):
    """The values (or the exception type) a computation gives."""
    try:
        if p["t"] == "lookup":
            return lookup(p)
        if p["t"] == "prog":
            P = Program(p["p"])
            for j in range(P.n):
                P.step(j)
            return [np.array(v) if not isinstance(v, str) else v for o in P.out for v in o[1]]
        if p["t"] == "rand":
            P = Program(p["p"])
            out = [np.array(P.f.w)]
            P.step(0)
            return out + [v for o in P.out for v in o[1]]
        if p["t"] == "lda":
            g = np.random.Generator(np.random.PCG64(p["s"]))
            SLabel.salt = salt % 9973
            lab = labels(p, g)
            x = g.normal(0, 1, (p["N"], p["n"]))
            if p["lab"] in ("str", "long", "int"):
                lab = [lab, lab.tolist(), tuple(lab.tolist())][salt % 3]
            pre = lib().preprocess
            if p["disc"]:
                return [np.array(pre.LDA_discriminants(x, lab))]
            return [np.array(pre.LDA(x, lab, p["k"]))]
        a, kw = call_args(p["c"])
        return flat(fn_of(p["c"]["fn"])(*a, **kw))
    except Exception as ex:  # noqa
        return ["exception " + type(ex).__name__]


def similar(p, rng):
    """A computation of the same kind that shares most parameters."""
    if p["t"] == "lookup":
        return gen_lookup(rng)
    q = json.loads(json.dumps(p))
    if p["t"] in ("prog", "rand"):
        r = q["p"]
        if r["t"] == "filter":
            if rng.random() < 0.6:
                r["data"]["s"] ^= 1
            if isinstance(r["f"]["w"], list) and rng.random() < 0.5:
                r["f"]["w"] = "zeros"
            if rng.random() < 0.4 and "mu" in r["f"]["p"]:
                r["f"]["p"]["mu"] *= 0.5
        elif rng.random() < 0.7:
            r["m"]["s"] ^= 1
        else:
            r["m"]["rs"] ^= 1
        return q
    if p["t"] == "lda":
        if rng.random() < 0.5:
            q["s"] ^= 1
        else:
            q["k"] = max(1, q["k"] - 1)
        return q
    q["c"] = similar_call(q["c"], rng)
    return q


def surroundings(case, which, ctx):
    """All computations of the case in surroundings `which` ('a' or 'b')."""
    progs, out = case["progs"], {}
    rng = random.Random(case[which])
    order = list(range(len(progs)))

    def everything():
        for i in order:
            p = progs[i]
            np.random.seed(case["rs"] if which == "a" else rng.randrange(1 << 30))
            if which == "b":
                if case["warm"] == "similar":
                    for _ in range(rng.randint(1, 3)):
                        execute(similar(p, rng), rng.randrange(1 << 20))
                        ctx.count("fault:calls_before")
                elif case["warm"] == "same":
                    first = execute(p, rng.randrange(1 << 20))
                    ctx.count("fault:calls_before")
                    compare(p, out.get(i, first), first, "first and later execution")
                elif case["warm"] in ("many", "many-same"):     # a process that has served many calls
                    q = similar(p, rng) if case["warm"] == "many" else p
                    most = 130 if p["t"] == "prog" else 20 if name(p) == "ESE" else 1100
                    for _ in range(min(most, rng.choice([40, 70, 130, 260, 520, 1100]))):
                        execute(q, rng.randrange(1 << 20))
                    ctx.count("fault:hundreds_of_calls_before")
                elif case["warm"] == "other":
                    for _ in range(rng.randint(1, 3)):
                        execute(gen_one(rng), rng.randrange(1 << 20))
                        ctx.count("fault:calls_before")
            out[i] = execute(p, rng.randrange(1 << 20))
    if which == "b" and case["warm"] == "order":
        order.reverse()
    with Environs(case[which], ctx.count):
        if which == "b" and case["imp"]:
            import_in_order(case["b"])
            ctx.count("fault:import_order")
        else:
            fresh_lib()
        if which == "b" and case["thread"]:
            in_thread(everything)
            ctx.count("fault:other_thread")
        else:
            everything()
    return out


def compare(p, u, v, what):
    if len(u) != len(v):
        raise Violation("differs:" + name(p), f"{what}: {describe(u)} and {describe(v)}")
    for a, b in zip(u, v):
        if isinstance(a, str) or isinstance(b, str):
            ok = isinstance(a, str) and isinstance(b, str) and a == b
        else:
            ok = same(a, b, rtol=1e-9)
        if not ok:
            raise Violation("differs:" + name(p), f"{what}: {describe(a)} and {describe(b)} (max difference "
                                                  f"{maxdiff(a, b)})")


def name(p):
    if p["t"] == "fn":
        return p["c"]["fn"]
    if p["t"] == "lda":
        return "LDA"
    if p["t"] == "lookup":
        return "lookup-" + p["k"]
    return p["p"]["f"]["k"] if p["p"]["t"] == "filter" else "MLP"


def run(case, ctx):
    if case["t"] == "proc":
        return proc(case, ctx)
    a = surroundings(case, "a", ctx)
    b = surroundings(case, "b", ctx)
    for i, p in enumerate(case["progs"]):
        compare(p, a[i], b[i], f"{name(p)} in two surroundings (warm={case['warm']} import order={case['imp']})")
        for v in a[i]:
            ctx.log(v)
        ctx.count("computations_compared")
        ctx.mark(name(p), p.get("lab"), case["warm"], case["imp"], case["thread"], p["t"])
    ctx.nontrivial = bool(case["progs"])


def proc(case, ctx):
    from ..main import PY, VERIF, env
    tmp = tempfile.mkdtemp(prefix="vsim-c10-")
    try:
        res = []
        ps = []
        for w in ("a", "b"):
            s = case[w]
            spec, out = os.path.join(tmp, w + ".json"), os.path.join(tmp, w + ".pickle")
            json.dump({"progs": case["progs"], "env": s["env"], "order": s["order"], "early": s["early"]}, open(spec, "w"))
            e = env(s["hash"])
            ps.append((out, subprocess.Popen([PY, "-W", "ignore", "-m", "vsim.battery", spec, out], cwd=VERIF, env=e,
                                             stderr=subprocess.PIPE, text=True)))
        for out, p in ps:
            _, err = p.communicate(timeout=90)
            if not os.path.exists(out):
                if REPO + "/padasip" in err:
                    raise Violation("process-failed", err[-800:])
                raise HarnessError("battery process failed: " + err[-1500:])
            res.append(pickle.load(open(out, "rb")))
        for i, p in enumerate(case["progs"]):
            compare(p, res[0][i], res[1][i], f"{name(p)} in processes with PYTHONHASHSEED={case['a']['hash']} and "
                                             f"{case['b']['hash']}")
            for v in res[0][i]:
                ctx.log(v)
            ctx.mark(name(p), p.get("lab"), "process")
        ctx.count("fault:other_process_and_hash_seed", 2)
        ctx.count("computations_compared", len(case["progs"]))
        ctx.nontrivial = True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def simplify(case):
    if case["t"] == "in":
        for alt in ({"imp": False}, {"thread": False}, {"warm": "none"}, {"warm": "same"}):
            q, v = next(iter(alt.items()))
            if case[q] != v:
                yield dict(case, **alt)
