"""C11: a missing or broken SciPy disables only ESE."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from ..core import REPO, Violation, HarnessError, call, chance, describe, fresh_lib, lib, pick, same
from ..noscipy import HOWS, KINDS, Gone
from ..programs import gen_call
from .c10 import execute, gen_one, name

ID = "C11"
CASES = {"quick": 2000, "thorough": 60000}
LISTS = ["epochs", "progs", "args"]
RULE = ("One run = a sequence of process images (fresh imports) with SciPy present or failing in a chosen way (missing, "
        "broken top level, broken or empty scipy.stats, failing before or in the middle of loading, with import, ABI, "
        "attribute, loader, memory errors); in every image the same computations and ESE calls are made. Every 80th run is a "
        "real process in which the n-th import of any SciPy module fails, and which recovers afterwards. Non-trivial: at "
        "least one image without SciPy and one computation.")
REAL = ["the whole of padasip", "the interpreter's import system", "numpy", "scipy.stats where present"]
STUB = ["presence and health of SciPy (import blockers)"]
ASSUME = ["a failing import raises an ordinary exception (not a crash of the interpreter)"]
COVER = "fault sequences (ways SciPy fails, in order) and points of failure inside SciPy's import"

ODD = [[], ["abc"], [None], [1, 2, 3, 4, 5], [[]], ["w", "e"], [{}]]


def gen_args(rng):
    if chance(rng, 0.5):
        return {"a": rng.randrange(len(ODD)), "kw": pick(rng, {}, {"window": 5}, {"window": "x"}, {"nonsense": 1})}
    return {"call": gen_call(rng, fn="ESE")}


def gen_progs(rng, k):
    out = []
    while len(out) < k:
        p = gen_one(rng)
        if p.get("c", {}).get("fn") != "ESE" and p.get("k") != "ESE" and not (p["t"] == "prog" and
                                                      any(o.get("fn") == "ESE" for o in p["p"]["ops"] if isinstance(o, dict))):
            out.append(p)
    return out


def gen(rng, tier, i):
    if i % 79 == 78:
        return {"t": "proc", "nth": pick(rng, 1, 2, 3, rng.randint(1, 40), rng.randint(1, 495), rng.randint(1, 495),
                                         rng.randint(1, 495), 5000),
                "kind": pick(rng, *KINDS), "late": chance(rng, 0.4), "progs": gen_progs(rng, 12),
                "ese": gen_call(rng, fn="ESE"), "args": [gen_args(rng) for _ in range(3)]}
    return {"t": "in", "epochs": [{"how": pick(rng, "ok", *HOWS), "kind": pick(rng, "missing", "import", *KINDS)}
                                  for _ in range(pick(rng, 1, 2, 3, 4))],
            "progs": gen_progs(rng, rng.randint(1, 4)), "ese": gen_call(rng, fn="ESE"),
            "args": [gen_args(rng) for _ in range(rng.randint(1, 4))]}


def ese_args(a):
    from ..programs import call_args
    if "call" in a:
        return call_args(a["call"])
    return list(ODD[a["a"]]), dict(a["kw"])


def ese_disabled(args, what, ctx=None):
    """Every call must raise ImportError."""
    for a in args:
        p, kw = ese_args(a)
        try:
            r = lib().detection.ESE(*p, **kw)
        except ImportError:
            if ctx:
                ctx.count("ese_calls_refused")
            continue
        except (Violation, HarnessError):
            raise
        except Exception as ex:  # noqa
            raise Violation("ese-other-exception", f"{what}: ESE raised {type(ex).__name__}: {ex} instead of ImportError")
        raise Violation("ese-returned-without-scipy", f"{what}: ESE returned {describe(r)}")


def agree(p, u, v, what):
    ok = len(u) == len(v)
    if ok:
        for a, b in zip(u, v):
            if isinstance(a, str) or isinstance(b, str):
                ok = ok and isinstance(a, str) and isinstance(b, str) and a == b
            else:
                ok = ok and same(a, b, rtol=1e-9)
    if not ok:
        raise Violation("differs:" + name(p), f"{name(p)} {what}: {describe(v)}, with SciPy {describe(u)}")


def run(case, ctx):
    if case["t"] == "proc":
        return proc(case, ctx)
    progs = case["progs"]
    fresh_lib()
    ref = [execute(p, 1) for p in progs]
    eref = execute({"t": "fn", "c": case["ese"]}, 1)
    for v in eref:
        ctx.log(v)
        if isinstance(v, str):
            raise Violation("ese-fails-with-scipy", f"ESE raises {v} with SciPy present")
    broken = 0
    for k, ep in enumerate(case["epochs"]):
        how = ep["how"]
        what = f"image {k} (SciPy: {how}, {ep['kind']})"
        if how == "ok":
            call("import", fresh_lib)
            for p, r in zip(progs, ref):
                agree(p, r, execute(p, 1), f"in {what} after {[e['how'] for e in case['epochs'][:k]]}")
            e = execute({"t": "fn", "c": case["ese"]}, 1)
            agree({"t": "fn", "c": case["ese"]}, eref, e, f"in {what} after {[q['how'] for q in case['epochs'][:k]]}")
            ctx.count("images_with_scipy")
            continue
        with Gone(how, ep["kind"]) as gone:
            broken += 1
            ctx.count(f"fault:scipy_{how}_{ep['kind']}" if how in ("all", "late", "stats", "stats_late") else
                      "fault:scipy_" + how)
            try:
                fresh_lib()
            except (HarnessError, Violation):
                raise
            except Exception as ex:  # noqa
                raise Violation("import-fails", f"{what}: import padasip raised {type(ex).__name__}: {ex}")
            ese_disabled(case["args"], what, ctx)
            for p, r in zip(progs, ref):
                agree(p, r, execute(p, 1), f"in {what}")
                ctx.count("computations_without_scipy")
            ese_disabled(case["args"][:1], what + " after other calls", ctx)
            if gone.left_behind():
                raise Violation("scipy-blocked", f"{what}: the library left {gone.left_behind()} behind, so SciPy cannot "
                                                 f"be imported in this process when it is there again")
    ctx.mark([(e["how"], e["kind"]) for e in case["epochs"]])
    # recovery
    call("import", fresh_lib)
    e = execute({"t": "fn", "c": case["ese"]}, 1)
    agree({"t": "fn", "c": case["ese"]}, eref, e, "after SciPy came back")
    for p, r in zip(progs[:1], ref):
        agree(p, r, execute(p, 1), "after SciPy came back")
    for r in ref:
        for v in r:
            ctx.log(v)
    ctx.nontrivial = broken > 0 and bool(progs)


# ------------------------------------------------------------------ a real process
def proc(case, ctx):
    from ..main import PY, VERIF, env
    fresh_lib()
    ref = [execute(p, 1) for p in case["progs"]]
    eref = execute({"t": "fn", "c": case["ese"]}, 1)
    tmp = tempfile.mkdtemp(prefix="vsim-c11-")
    try:
        spec, out = os.path.join(tmp, "s.json"), os.path.join(tmp, "o.pickle")
        json.dump(case, open(spec, "w"))
        p = subprocess.run([PY, "-W", "ignore", "-m", "vsim.props.c11", spec, out], cwd=VERIF, env=env(),
                           capture_output=True, text=True, timeout=95)
        if not os.path.exists(out):
            if REPO + "/padasip" in p.stderr:
                raise Violation("import-fails", f"SciPy import {case['nth']} fails with {case['kind']}: " + p.stderr[-900:])
            raise HarnessError("process failed: " + p.stderr[-1500:])
        r = pickle.load(open(out, "rb"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    what = f"in a process in which SciPy import number {case['nth']} failed ({case['kind']})"
    for q, u, v in zip(case["progs"], ref, r["progs"]):
        agree(q, u, v, what)
        for a in u:
            ctx.log(a)
    if r["violation"]:
        raise Violation(*r["violation"])
    if not disabled(r["ese"]):
        # the failure was absorbed inside SciPy: then ESE is the real one
        agree({"t": "fn", "c": case["ese"]}, eref, r["ese"], what)
        ctx.count("failure_absorbed_or_not_reached")
    elif not r["fired"]:
        raise Violation("ese-disabled-with-scipy", "ESE raises ImportError although SciPy imports")
    if r["again"] is not None:
        agree({"t": "fn", "c": case["ese"]}, eref, r["again"], "after SciPy came back in the same process")
        ctx.count("recovered_in_process")
    ctx.count("fault:nth_scipy_import_" + case["kind"], 1 if r["fired"] else 0)
    ctx.mark("nth", case["nth"], case["kind"], case["late"])
    ctx.nontrivial = bool(r["fired"])


def disabled(r):
    return len(r) == 1 and isinstance(r[0], str) and r[0] == "exception ImportError"


def child(spec, out):
    import importlib
    from ..noscipy import Blocker
    case = json.load(open(spec))
    np.seterr(all="ignore")
    b = Blocker(case["kind"], nth=case["nth"], late=case["late"])
    if any(k.startswith("scipy") for k in sys.modules):
        raise SystemExit("scipy imported too early")
    sys.meta_path.insert(0, b)
    import padasip
    assert padasip.__file__.startswith(REPO + "/"), padasip.__file__
    res = {"violation": None, "again": None}
    res["progs"] = [execute(p, 1) for p in case["progs"]]
    res["ese"] = execute({"t": "fn", "c": case["ese"]}, 1)
    res["fired"] = b.fired
    if disabled(res["ese"]):
        try:
            ese_disabled(case["args"], f"SciPy import {case['nth']} failed ({case['kind']})")
        except Violation as v:
            res["violation"] = (v.kind, v.detail)
    sys.meta_path.remove(b)
    try:
        for k in [k for k in sys.modules if k.startswith("scipy")]:
            if k not in ("scipy",) and sys.modules[k] is not None and not hasattr(sys.modules[k], "__file__"):
                del sys.modules[k]
        g = importlib.import_module("scipy.stats").genpareto
        g.cdf(1.0, 0.1)
        ok = True
    except Exception:  # SciPy itself does not recover in this process
        ok = False
        poisoned = [k for k in sys.modules if k.startswith("scipy") and sys.modules[k] is None]
        if poisoned:
            res["violation"] = res["violation"] or ("scipy-blocked", f"the library left {poisoned} behind as unavailable")
    if ok:
        for k in [k for k in sys.modules if k.startswith("padasip")]:
            del sys.modules[k]
        import padasip  # noqa
        res["again"] = execute({"t": "fn", "c": case["ese"]}, 1)
    with open(out, "wb") as f:
        pickle.dump(res, f)


def simplify(case):
    if case["t"] == "in":
        for k, e in enumerate(case["epochs"]):
            if e["how"] != "none":
                yield dict(case, epochs=case["epochs"][:k] + [dict(e, how="none", kind="missing")] + case["epochs"][k + 1:])


if __name__ == "__main__":
    child(sys.argv[1], sys.argv[2])
