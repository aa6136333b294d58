"""C21: a computation leaves the process alone and needs nothing from it."""
import copy

import numpy as np

from .. import core
from ..core import Hang, HarnessError, Violation, call, chance, describe, fresh_lib, maxdiff, pick, same
from ..environs import in_thread
from ..procwatch import AWKWARD, Awkward, Watch, deep, scratch
from ..programs import ODD, Program, estimate, gen_call, gen_form, gen_program
from ..sched import Scheduler, gen_switches, trace_call
from .c20 import CANCEL, do_op, op_name, place, r

ID = "C21"
CASES = {"quick": 6000, "thorough": 200000}
LISTS = ["env"]
RULE = ("One run = import of the library and a client program, once in an ordinary process and once in an awkward one (broken or "
        "absent standard streams, removed working directory, no file may be opened or written, empty environment, garbage "
        "collection at every allocation, other numpy or decimal settings, optimised bytecode, another thread, a deep stack); "
        "after every call - successful, failing or cancelled at a line inside the library - the global state of the process, "
        "its open files, threads and hooks are compared with those before, and the audit events of the interpreter show what "
        "the call touched; in a fifth of the runs two threads use the library at once, interleaved by the simulated scheduler, and the process is compared when both are done. Non-trivial: at least two calls watched in each process.")
REAL = ["the whole of padasip", "numpy", "scipy.stats (ESE)", "the process: limits, descriptors, signals, environment"]
STUB = ["standard streams", "the client", "tracing of the interpreter (audit hook, trace function)"]
ASSUME = ["loading of modules by the import system is not counted as opening files; warnings are not counted as output",
          "a cancelled call may be cut between taking and protecting a setting: a change after a cancellation counts only if it "
          "happens at four or more different lines of that call",
          "with two threads the process is compared when both are done; a setting that a call takes and gives back is judged then",
          "random generator states belong to property C09"]


class _Uncounted:
    def count(self, *a):
        pass


def first_import():
    import scipy.stats  # noqa: what loading scipy does to the process is not the library's doing
    return Watch("the first import of padasip", _Uncounted())


core.FIRST_IMPORT = first_import
COVER = "situations (operation, outcome, awkward conditions)"


def gen(rng, tier, i):
    p = gen_program(rng, pick(rng, "filter", "filter", "fn", "fn", "mlp"), maxN=pick(rng, 4, 8, 14))
    if p["t"] == "fn" and chance(rng, 0.04):
        p["ops"].append(gen_call(rng, "ESE"))
    if p["t"] == "fn" and chance(rng, 0.4):
        p["ops"].insert(rng.randrange(len(p["ops"]) + 1), gen_call(rng, "invalid"))
    if p["t"] == "fn":
        for c in p["ops"]:
            if chance(rng, 0.2):
                c["odd"] = pick(rng, *ODD)
            if chance(rng, 0.2):
                gen_form(rng, c)
        if chance(rng, 0.06):                                 # one function many times
            c = rng.choice(p["ops"])
            if c["fn"] != "ESE":
                p["ops"] = [dict(c, s=rng.randrange(1 << 30)) for _ in range(pick(rng, 8, 12, 25))]
    if p["t"] == "filter" and chance(rng, 0.05):              # numbers that overflow
        p["data"]["scale"] = pick(rng, 1e80, 1e160, 1e300)
    if p["t"] == "mlp" and chance(rng, 0.25):                 # inputs nobody has scaled: nodes saturate
        p["m"]["xs"] = pick(rng, 30, 1e3, 1e5, 1e8)
    if p["t"] == "filter":
        for _ in range(rng.randint(0, 3)):
            p["ops"].insert(rng.randrange(len(p["ops"]) + 1),
                            {"o": "bad", "i": rng.randrange(p["data"]["N"]), "how": pick(rng, "run", "adapt", "len")})
        if chance(rng, 0.2):
            p["ops"].insert(rng.randrange(len(p["ops"]) + 1),
                            {"o": "pre", "ix": sorted(rng.randrange(p["data"]["N"]) for _ in range(5)), "nt": 0.5, "ep": 2})
    env = sorted(set(rng.choice(AWKWARD) for _ in range(pick(rng, 1, 1, 2, 3))))
    case = {"p": p, "env": env, "faults": []}
    if chance(rng, 0.4):
        case["faults"] = [[rng.randrange(len(p["ops"])), r(rng), pick(rng, *CANCEL)]]
    if chance(rng, 0.2):                   # another thread of the program uses the library at the same time
        q = p if chance(rng, 0.5) else gen_program(rng, pick(rng, p["t"], "filter", "fn", "mlp"), maxN=8)
        case["pair"] = {"p": q, "sw": gen_switches(rng, max(estimate(p), estimate(q))), "first": rng.randrange(2)}
    return case


def together(case, ctx):
    """Two programs in two threads, interleaved: when both are done the process is as before."""
    fresh_lib()
    progs = [call("construct", Program, q) for q in (case["p"], case["pair"]["p"])]
    h = [None]

    def client(p):
        def body():
            for j in range(len(p.rec["ops"])):
                try:
                    do_op(p, j)
                except (Hang, HarnessError):
                    raise
                except Exception:  # noqa: the outcomes are judged elsewhere
                    pass
                h[0].point()
        return body
    h[0] = Scheduler([client(p) for p in progs], case["pair"]["sw"], (), "line", case["pair"]["first"])
    w = Watch("two threads: " + ", ".join(op_name(p.rec, p.rec["ops"][0]) for p in progs), ctx)
    with w:
        h[0].run()
    w.touched = [v for v in w.touched if not v.startswith(("sys.settrace", "_thread.start"))]
    ctx.count("switches", h[0].nswitch)
    ctx.count("pairs_watched")
    ctx.mark("together", h[0].interleaving())
    w.judge()


def strip_bad(p):
    return dict(p, ops=[o for o in p["ops"] if o.get("o") != "bad"])


def watched(p, j, ctx, broken=False, wrap=None):
    """Operation j under watch; its outcome."""
    if wrap:
        return wrap(lambda: watched(p, j, ctx, broken))
    what = op_name(p.rec, p.rec["ops"][j])
    w = Watch(what, ctx, broken)
    with w:
        try:
            r = ("ok", do_op(p, j))
        except (Hang, HarnessError):
            raise
        except Exception as ex:  # noqa
            r = ("exc", type(ex).__name__)
    w.judge()
    ctx.count("outcome_" + r[0])
    return r


def session(case, ctx, env, faults=()):
    rec = case["p"]
    broken = "broken_stdout" in env
    wrap = None
    if "thread" in env:
        wrap = in_thread
    if "deep_stack" in env:
        wrap = lambda fn: deep(fn, 500)                       # noqa: E731
    core.OPTIMISE = 2 if "optimised" in env else 0
    try:
        w = Watch("import padasip", ctx, broken)
        with w:
            call("import", fresh_lib)
        w.judge()
        w = Watch("construction", ctx, broken)
        with w:
            p = call("construct", Program, rec)
        w.judge()
    finally:
        core.OPTIMISE = 0
    out = []
    for j in range(len(rec["ops"])):
        for jj, frac, name in faults:
            if jj == j:
                cancelled(p, j, frac, name, ctx)
        out.append(watched(p, j, ctx, broken, wrap))
        ctx.mark(op_name(rec, rec["ops"][j]), out[-1][0], sorted(env))
    return out


def cancelled(p, j, frac, name, ctx):
    """A cancelled attempt on a copy: the process must be as before afterwards."""
    what = op_name(p.rec, p.rec["ops"][j])

    def attempt(k):
        q = copy.deepcopy(p) if p.rec["t"] != "fn" else p
        w = Watch(f"{what} cancelled by {name}", ctx)

        def body():
            with w:
                return do_op(q, j)
        _, ex, n, where = trace_call(body, fault=(k, name) if k else None)
        if isinstance(ex, (Hang, HarnessError)):
            raise ex
        if where is not None:        # the interpreter switches tracing off when a trace function raises
            w.touched = [v for v in w.touched if not v.startswith("sys.settrace")]
            w.leaks = [v for v in w.leaks if not v.startswith("tracing")]
        return w, n, where
    w, steps, _ = attempt(0)
    w.judge()
    w, _, where = attempt(place(frac, steps))
    if where is None:
        return
    ctx.count("fault:" + name)
    w.judge(leaks=False)
    if w.leaks:
        places = {where}
        for k in range(1, min(steps, 400) + 1):
            v, _, at = attempt(k)
            if v.leaks:
                places.add(at)
        if len(places) >= 4:
            w.what += f" at {where} ({len(places)} places)"
            w.judge()


def run(case, ctx):
    d, leave = scratch()
    left = []
    try:
        with np.errstate(divide="warn", over="warn", under="ignore", invalid="warn"):      # as numpy starts
            a = session(case, ctx, [], case["faults"])
            try:
                core.OPTIMISE = 2 if "optimised" in case["env"] else 0
                core.precompile()
            finally:
                core.OPTIMISE = 0
            with Awkward(case["env"], ctx):
                b = session(case, ctx, case["env"])
            if case.get("pair"):
                together(case, ctx)
    finally:
        left = leave()
    if left:
        raise Violation("leaves-files", f"the working directory contains {left[:5]}")
    for j, (x, y) in enumerate(zip(a, b)):
        what = op_name(case["p"], case["p"]["ops"][j])
        if isinstance(case["p"]["ops"][j], dict) and case["p"]["ops"][j].get("odd"):
            continue                       # rounding decides what comes out of such data
        if x[0] != y[0] or (x[0] == "exc" and x[1] != y[1]):
            raise Violation("needs:outcome", f"{what}: {brief(x)} in an ordinary process, {brief(y)} with {case['env']}")
        if x[0] == "ok":
            for u, v in zip(x[1], y[1]):
                if not same(u, v, rtol=1e-7):
                    raise Violation("needs:result", f"{what}: {describe(u)} in an ordinary process, {describe(v)} with "
                                                    f"{case['env']} ({maxdiff(u, v)})")
                ctx.log(np.array(u))
        else:
            ctx.log(x[1])
    ctx.nontrivial = len(a) > 1


def brief(x):
    return x[1] if x[0] == "exc" else describe(x[1][0])


def simplify(case):
    if case.get("pair"):
        yield {k: v for k, v in case.items() if k != "pair"}
        sw, q = case["pair"]["sw"], case["pair"]["p"]
        for cut in (sw[:len(sw) // 2], sw[:-1]):
            if cut != sw:
                yield dict(case, pair=dict(case["pair"], sw=cut))
        for k in range(len(q["ops"]) - 1, -1, -1):
            if len(q["ops"]) > 1:
                yield dict(case, pair=dict(case["pair"], p=dict(q, ops=q["ops"][:k] + q["ops"][k + 1:])))
    if case["faults"]:
        yield dict(case, faults=[])
    p = case["p"]
    for k in range(len(p["ops"]) - 1, -1, -1):
        if all(f[0] != k for f in case["faults"]) and len(p["ops"]) > 1:
            yield dict(case, p=dict(p, ops=p["ops"][:k] + p["ops"][k + 1:]),
                       faults=[[f[0] - (f[0] > k)] + f[1:] for f in case["faults"]])
