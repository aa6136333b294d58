"""C05: independent objects and calls do not interfere under any interleaving."""
import numpy as np

from ..core import Hang, Violation, chance, describe, fresh_lib, maxdiff, pick, r6, same
from ..programs import Program, estimate, gen_call, gen_filter_ops, gen_program, similar_call
from ..sched import Scheduler, gen_switches
from ..world import gen_filter, make_data

ID = "C05"
CASES = {"quick": 6000, "thorough": 160000}
LISTS = ["switches", "faults", "order"]
RULE = ("One run = 2-4 client programs (filter sessions, network sessions, stateless calls), often of the same class, "
        "size, weights and input arrays, interleaved by the simulated scheduler at library lines or bytecodes (or "
        "alternated call by call), with exceptions injected into some; every program is compared with its solo run. "
        "Non-trivial: at least one preemption inside library code with two live programs.")
REAL = ["the whole of padasip", "numpy", "scipy.stats (ESE)", "Python threads (one runnable at a time)"]
STUB = ["choice of the running thread", "asynchronous exceptions"]
ASSUME = ["calls into numpy are atomic (they hold the interpreter lock or touch only their own data)"]
COVER = "interleavings (hash of the sequence of switch places)"


def vary(rng, f, rec):
    """The same kind of filter with some of its parameters set otherwise."""
    g = gen_filter(rng, rec, kinds=[f["k"]], tame=True)["p"] if chance(rng, 0.6) else {}
    return dict(f, p={q: g[q] if q in g and chance(rng, 0.4) else v for q, v in f["p"].items()})


def vary_net(rng, m):
    if chance(rng, 0.4):
        m = dict(m, act=pick(rng, "sigmoid", "tanh"))
    if chance(rng, 0.4):
        m = dict(m, mu=pick(rng, "auto", 0.05, 0.1, 0.3))
    return m


def gen_crowd(rng):
    """Many objects of few kinds alive at once, created, used in turn and dropped."""
    kinds = []
    base = gen_program(rng, kind=pick(rng, "filter", "filter", "filter", "mlp"), maxN=8)
    for j in range(pick(rng, 1, 2, 3, 5)):
        p = base if j == 0 else gen_program(rng, kind=base["t"], maxN=8)
        if j and base["t"] == "filter" and chance(rng, 0.7):       # same class and size
            n = base["f"]["n"]
            p = {"t": "filter", "data": dict(base["data"], s=rng.randrange(1 << 30)), "ops": gen_filter_ops(rng, base["data"]["N"]),
                 "f": dict(vary(rng, base["f"], base["data"]), w=pick(rng, base["f"]["w"], "zeros", [r6(rng.gauss(0, 1)) for _ in range(n)]))}
        elif j and base["t"] == "mlp" and chance(rng, 0.7):
            p = dict(base, m=vary_net(rng, dict(base["m"], s=rng.randrange(1 << 30), rs=rng.randrange(1 << 30))))
        kinds.append(p)
    return {"progs": kinds, "gran": "crowd", "share": False, "faults": [], "first": 0, "s": rng.randrange(1 << 30),
            "M": pick(rng, 6, 9, 12, 17, 20, 33, 40, 70, 130), "live": pick(rng, 2, 5, 9, 20, 40, 200)}


def run_crowd(case, ctx):
    import random
    solo = []
    for q in case["progs"]:
        fresh_lib()
        np.seterr(all="ignore")
        p = Program(q)
        for j in range(p.n):
            p.step(j)
        solo.append((p.out, p.state()))
    fresh_lib()
    np.seterr(all="ignore")
    g = random.Random(case["s"])
    live, made, alternations = [], 0, 0
    while made < case["M"] or live:
        if made < case["M"] and len(live) < case["live"] and (not live or g.random() < 0.5):
            q = g.randrange(len(case["progs"]))
            live.append((made, q, Program(case["progs"][q])))
            made += 1
            continue
        a = g.randrange(len(live))
        number, q, p = live[a]
        if p.done < p.n:
            p.step(p.done)
            alternations += 1
        if p.done >= p.n and g.random() < 0.7:
            compare(case, f"object {number} of {made}", case["progs"][q], p, solo[q], ctx)
            del live[a], p
    ctx.count("alternations", alternations)
    ctx.count("crowd_objects", made)
    ctx.mark("crowd", case["M"], case["live"], [p["t"] for p in case["progs"]], case["s"])
    ctx.nontrivial = made > 2


def gen(rng, tier, i):
    if chance(rng, 0.04):
        return gen_crowd(rng)
    k = pick(rng, 2, 2, 2, 3, 4)
    style = pick(rng, "twins", "twins", "same-class", "mixed", "mixed", "same-fn", "same-fn")
    progs = []
    if style in ("twins", "same-class"):
        base = gen_program(rng, kind=pick(rng, "filter", "filter", "filter", "mlp"))
        for j in range(k):
            p = gen_program(rng, kind=base["t"])
            if base["t"] == "filter":
                rec = dict(base["data"])
                f = dict(base["f"])
                if style == "same-class":
                    rec["s"] = rng.randrange(1 << 30)
                    f = dict(vary(rng, f, rec), w=pick(rng, "zeros", [r6(rng.gauss(0, 1)) for _ in range(f["n"])]))
                p = {"t": "filter", "data": rec, "f": f, "ops": gen_filter_ops(rng, rec["N"])}
            elif base["t"] == "mlp":
                p = dict(base, m=dict(base["m"], s=base["m"]["s"] + j, rs=base["m"]["rs"] + (style != "twins") * j))
                if style != "twins":
                    p["m"] = vary_net(rng, p["m"])
            progs.append(p)
    elif style == "same-fn":
        fn = pick(rng, "learning_entropy", "ELBND", "filter_data") if chance(rng, 0.3) else gen_call(rng)["fn"]
        base = gen_call(rng, fn, ese=0.0)
        near = chance(rng, 0.6)               # calls that differ in one respect only
        progs = [{"t": "fn", "ops": [similar_call(base, rng) if near else gen_call(rng, fn, ese=0.0)
                                     for _ in range(rng.randint(1, 3))]} for _ in range(k)]
    else:
        progs = [gen_program(rng) for _ in range(k)]
    gran = pick(rng, "line", "line", "line", "opcode", "calls")
    est = max(estimate(p) for p in progs) * (7 if gran == "opcode" else 1)
    faults = []
    if gran == "line" and chance(rng, 0.45):      # CPython 3.12.3 crashes when an opcode tracer raises
        for _ in range(rng.randint(1, 2)):
            faults.append([rng.randrange(k), rng.randint(1, max(2, est)), pick(rng, "interrupt", "memory", "keyboard", "timeout")])
    case = {"progs": progs, "gran": gran, "share": style == "twins" and chance(rng, 0.7), "faults": faults,
            "first": rng.randrange(k)}
    if gran == "calls":
        order = [j for j, p in enumerate(progs) for _ in p["ops"]]
        rng.shuffle(order)
        case["order"] = order
        case["faults"] = []
    else:
        case["switches"] = gen_switches(rng, est)
    return case


def make(case):
    progs = case["progs"]
    shared = None
    if case["share"] and progs[0]["t"] == "filter":
        X, d, _ = make_data(progs[0]["data"])
        X.setflags(write=False)
        d.setflags(write=False)
        shared = {"Xd": (X, d)}
        w = progs[0]["f"]["w"]
        if isinstance(w, list):
            shared["w"] = np.array(w, dtype=float)
            shared["w"].setflags(write=False)
    return [Program(p, shared) for p in progs]


def task(p, holder):
    def fn():
        s = holder[0]

        def onexc(ex):
            s.arm()
        for j in range(p.n):
            p.step(j, onexc)
            s.point()
    return fn


def run(case, ctx):
    if case["gran"] == "crowd":
        return run_crowd(case, ctx)
    # the programs alone, one process image each
    solo = []
    gran = case["gran"]
    k = len(case["progs"])
    for j in range(k):
        np.seterr(all="ignore")
        p = make(case)[j]
        if gran == "calls":
            for q in range(p.n):
                p.step(q)
        else:
            h = [None]
            h[0] = Scheduler([task(p, h)], [], [[0, s, n] for t, s, n in case["faults"] if t == j], gran)
            h[0].run()
        solo.append((p.out, p.state()))
    # together
    np.seterr(all="ignore")
    progs = make(case)
    sch = None
    if gran == "calls":
        todo = list(case["order"])
        for j in todo:
            p = progs[j]
            if p.done < p.n:
                p.step(p.done)
        for p in progs:
            while p.done < p.n:
                p.step(p.done)
        ctx.nontrivial = len(todo) > 2
        ctx.mark("calls", todo, [p["t"] for p in case["progs"]])
        ctx.count("alternations", sum(a != b for a, b in zip(todo, todo[1:])))
    else:
        h = [None]
        sch = Scheduler([task(p, h) for p in progs], case["switches"], case["faults"], gran, case["first"])
        h[0] = sch
        sch.run()
        ctx.count("switches", sch.nswitch)
        ctx.count("yield_points", sch.total)
        ctx.count("runs_" + gran)
        for t in sch.tasks:
            for name, where in t.fired:
                ctx.count("fault:" + name)
        ctx.nontrivial = sch.nswitch > 0
        ctx.mark(sch.interleaving())
        ctx.log(sch.interleaving())
    for j, p in enumerate(progs):
        compare(case, f"program {j}", case["progs"][j], p, solo[j], ctx)


def compare(case, who, rec, p, solo, ctx):
    want, wstate = solo
    name = rec.get("f", {}).get("k") or rec["t"]
    for q, (a, b) in enumerate(zip(p.out, want)):
        if a[0] != b[0] or (a[0] == "exc" and a[1] != b[1]):
            raise Violation("interference:outcome", f"{who} ({name}) operation {q}: {short(a)} together, "
                                                    f"{short(b)} alone")
        if a[0] == "ok":
            for u, v in zip(a[1], b[1]):
                if not same(u, v, rtol=1e-11):
                    raise Violation("interference:result", f"{who} ({name}) operation {q}: {describe(u)} "
                                                           f"together, {describe(v)} alone ({maxdiff(u, v)})")
            ctx.log(*a[1])
    for u, v in zip(p.state(), wstate):
        if not same(u, v, rtol=1e-11):
            raise Violation("interference:state", f"{who} ({name}): final weights {describe(u)} together, "
                                                  f"{describe(v)} alone")
    ctx.count("programs_compared")


def short(a):
    return a[1][0] if a[0] == "exc" else "a result"


def simplify(case):
    k = len(case["progs"])
    if case["gran"] == "crowd":
        for alt in ({"M": case["M"] // 2}, {"M": case["M"] - 1}, {"live": case["live"] // 2}):
            if min(alt.values()) >= 1:
                yield dict(case, **alt)
        if k > 1:
            for j in range(k):
                yield dict(case, progs=case["progs"][:j] + case["progs"][j + 1:])
        return
    if k > 2 and case["gran"] != "calls":
        for j in range(k):
            c = dict(case, progs=case["progs"][:j] + case["progs"][j + 1:], first=0,
                     faults=[[t - (t > j), s, n] for t, s, n in case["faults"] if t != j])
            yield c
    for j, p in enumerate(case["progs"]):
        ops = p["ops"]
        for q in range(len(ops)):
            if len(ops) > 1:
                yield dict(case, progs=case["progs"][:j] + [dict(p, ops=ops[:q] + ops[q + 1:])] + case["progs"][j + 1:])
            ix = ops[q].get("ix") if isinstance(ops[q], dict) else None
            if ix and len(ix) > 1:
                for part in (ix[:len(ix) // 2], ix[len(ix) // 2:]):
                    o = ops[:q] + [dict(ops[q], ix=part)] + ops[q + 1:]
                    yield dict(case, progs=case["progs"][:j] + [dict(p, ops=o)] + case["progs"][j + 1:])
    for q, s in enumerate(case.get("switches", [])):
        if s[0] > 1:
            yield dict(case, switches=case["switches"][:q] + [[s[0] // 2, s[1]]] + case["switches"][q + 1:])
    if case["share"]:
        yield dict(case, share=False)
