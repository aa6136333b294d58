"""One worker process: runs simulated cases of one property.

  worker.py batch PROP TIER SEED START STRIDE COUNT OUT STOPFILE DEADLINE
  worker.py digests PROP TIER SEED INDEX,INDEX,... OUT
  worker.py minimise PROP CASEFILE KIND OUT SECONDS
  worker.py replay FILE
"""
import contextlib
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from .core import REPO, Ctx, HarnessError, Hang, Violation, fresh_lib, install_finder  # noqa: E402

CASE_SECONDS = 100


def load(prop):
    return importlib.import_module("vsim.props." + prop.lower())


def case_rng(prop, tier, seed, i):
    h = hashlib.blake2b(f"{seed}/{prop}/{i}".encode(), digest_size=8).digest()
    return random.Random(int.from_bytes(h, "big"))


def make_case(mod, tier, seed, i):
    return mod.gen(case_rng(mod.ID, tier, seed, i), tier, i)


def prepare():
    import numpy as np
    np.seterr(all="ignore")
    install_finder()
    from . import sched
    sched.prime()
    from . import core
    watch = core.FIRST_IMPORT() if core.FIRST_IMPORT else contextlib.nullcontext()
    try:
        with watch:
            import padasip  # noqa
    except Exception as ex:  # noqa
        raise Violation("unexpected-exception:import", f"import padasip fails: {type(ex).__name__}: {ex}")
    if core.FIRST_IMPORT:
        watch.judge()
    root = os.path.realpath(sys.modules["padasip"].__file__)
    if not root.startswith(os.path.realpath(REPO) + "/"):
        raise HarnessError("padasip comes from " + root)


_began = [0.0, 0.0]


def _alarm(sig, frame):
    """A run that stands still on a machine busy with other work is given more
    time: what counts is the processor time it has had."""
    wall, cpu = time.monotonic() - _began[0], time.process_time() - _began[1]
    if cpu < 0.6 * CASE_SECONDS and wall < 4 * CASE_SECONDS:
        signal.alarm(CASE_SECONDS // 2)
        return
    raise Hang(f"a single case did not end within {CASE_SECONDS} s")


def run_case(mod, case):
    """(violation or None, ctx); anything else than a Violation is an error of
    the machinery and propagates."""
    import numpy as np
    ctx = Ctx()
    np.random.seed(12345)
    random.seed(12345)
    _began[:] = time.monotonic(), time.process_time()
    signal.alarm(CASE_SECONDS)
    try:
        fresh_lib()
        with np.errstate(all="ignore"):
            mod.run(case, ctx)
        return None, ctx
    except Violation as v:
        return v, ctx
    except Hang as h:
        return Violation("no-progress", str(h)), ctx
    except HarnessError:
        raise
    except Exception as ex:  # noqa
        # the library returned something no property allows, and the oracle
        # stumbled over it (never happens on a tree where the properties hold)
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        return Violation("unexpected-observation:" + type(ex).__name__,
                         f"{ex} at {os.path.basename(tb.filename)}:{tb.lineno} ({tb.line})"), ctx
    finally:
        signal.alarm(0)


def dump(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


def batch(prop, tier, seed, start, stride, count, out, stopfile, deadline):
    mod = load(prop)
    agg = {"runs": 0, "counters": {}, "cover": set(), "digests": {}, "nontrivial": 0, "simtime": 0.0,
           "known": {}, "violation": None, "cut": False, "cases": set(), "samples": []}
    t_end = time.time() + deadline
    cur = os.open(out + ".cur", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    try:
        prepare()
    except Violation as v:
        agg["violation"] = {"i": 0, "case": make_case(mod, tier, seed, 0), "kind": v.kind, "detail": v.detail}
        count = 0
    for i in range(start, count, stride):
        if time.time() > t_end:
            agg["cut"] = True
            break
        if (i // stride) % 8 == 0 and os.path.exists(stopfile):
            try:
                if int(open(stopfile).read()) < i:
                    break
            except ValueError:
                pass
        case = make_case(mod, tier, seed, i)
        os.pwrite(cur, b"%-12d" % i, 0)
        try:
            v, ctx = run_case(mod, case)
        except BaseException:
            print(f"HARNESS-ERROR in case {i}: {json.dumps(case)[:2000]}", file=sys.stderr)
            raise
        agg["runs"] += 1
        for k, c in ctx.counters.items():
            agg["counters"][k] = agg["counters"].get(k, 0) + c
        if len(agg["cover"]) < 400_000:
            agg["cover"] |= ctx.cover
        agg["simtime"] += ctx.simtime
        agg["known"].update(ctx.known)
        if ctx.nontrivial:
            agg["nontrivial"] += 1
            agg["cases"].add(hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=6).hexdigest())
        if i % 97 < 8 and len(agg["digests"]) < 200:
            agg["digests"][i] = ctx.digest()
        if i < 3:
            agg["samples"].append({"index": i, "case": case, "digest": ctx.digest()})
        if v is not None:
            agg["violation"] = {"i": i, "case": case, "kind": v.kind, "detail": v.detail}
            if not os.path.exists(stopfile):
                dump_txt(stopfile, str(i))
            break
    agg["cover"] = sorted(agg["cover"])
    agg["cases"] = sorted(agg["cases"])
    dump(out, agg)


def dump_txt(path, s):
    with open(path + f".{os.getpid()}", "w") as f:
        f.write(s)
    os.replace(path + f".{os.getpid()}", path)


def alone(prop, tier, seed, i, out):
    """The run in which the interpreter died, again and on its own; threads are
    switched at lines instead of instructions (CPython 3.12 itself can crash when a
    tracer that follows instructions raises, here: on a hang)."""
    mod = load(prop)
    prepare()
    case = make_case(mod, tier, seed, i)
    if case.get("gran") == "opcode":
        case["gran"] = "line"
    res = {"case": case, "violation": None}
    dump(out, dict(res, violation={"i": i, "case": case, "kind": "process-death",
                                   "detail": "the interpreter dies in this run"}))
    v, _ = run_case(mod, case)
    if v is not None:
        res["violation"] = {"i": i, "case": case, "kind": v.kind, "detail": v.detail}
    dump(out, res)


def digests(prop, tier, seed, idx, out):
    mod = load(prop)
    prepare()
    res = {}
    for i in idx:
        v, ctx = run_case(mod, make_case(mod, tier, seed, i))
        res[i] = ctx.digest() + ("" if v is None else "!" + v.kind)
    dump(out, res)


# ------------------------------------------------------------------ minimisation
def still(mod, case, kind):
    try:
        v, _ = run_case(mod, case)
    except Exception:  # a shrunk case the harness cannot run
        return None
    return v if v is not None and v.kind == kind else None


def variants(mod, case):
    for key in getattr(mod, "LISTS", ()):
        xs = case.get(key)
        if not isinstance(xs, list) or not xs:
            continue
        size = len(xs)
        while size >= 1:
            for a in range(0, len(xs), size):
                yield dict(case, **{key: xs[:a] + xs[a + size:]})
            size //= 2
    if hasattr(mod, "simplify"):
        yield from mod.simplify(case)


def minimise(prop, casefile, kind, out, seconds):
    mod = load(prop)
    case = json.load(open(casefile))
    t_end = time.time() + seconds
    tried = 0
    try:
        prepare()
    except Violation as v:
        dump(out, {"case": case, "kind": v.kind, "detail": v.detail, "tried": 0})
        return
    v = still(mod, case, kind)
    best = v.detail if v else None
    size = len(json.dumps(case))
    improved = v is not None
    seen = set()
    while improved and time.time() < t_end:
        improved = False
        for c in variants(mod, case):
            if time.time() > t_end:
                break
            js = json.dumps(c, sort_keys=True)
            if len(js) > size + 40 or js in seen:
                continue
            seen.add(js)
            tried += 1
            v = still(mod, c, kind)
            if v is not None:
                case, best, size = c, v.detail, len(js)
                improved = True
                break
    dump(out, {"case": case, "kind": kind, "detail": best, "tried": tried})


def replay(path):
    rec = json.load(open(path))
    mod = load(rec["property"])
    try:
        prepare()
        v, ctx = run_case(mod, rec["case"])
    except Violation as vv:
        v, ctx = vv, Ctx()
    if v is None:
        print(f"NOT REPRODUCED property={rec['property']} digest={ctx.digest()}")
        return 0
    print(f"{v.kind}: {v.detail}")
    print(f"digest={ctx.digest()} (recorded {rec.get('digest')})")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def main(argv):
    signal.signal(signal.SIGALRM, _alarm)
    cmd = argv[0]
    if cmd == "batch":
        p, t, s, a, st, n, out, stop, dl = argv[1:]
        batch(p, t, int(s), int(a), int(st), int(n), out, stop, float(dl))
    elif cmd == "alone":
        alone(argv[1], argv[2], int(argv[3]), int(argv[4]), argv[5])
    elif cmd == "digests":
        p, t, s, idx, out = argv[1:]
        digests(p, t, int(s), [int(i) for i in idx.split(",")], out)
    elif cmd == "minimise":
        minimise(argv[1], argv[2], argv[3], argv[4], float(argv[5]))
    elif cmd == "replay":
        return replay(argv[1])
    elif cmd == "case":
        mod = load(argv[1])
        prepare()
        case = make_case(mod, "quick", int(argv[2]), int(argv[3]))
        print(json.dumps(case))
        try:
            v, ctx = run_case(mod, case)
            print(v, ctx.counters, ctx.digest())
        except Exception:
            traceback.print_exc()
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc or 0)
