"""check PROP [quick|thorough]   |   check --replay FILE

Runs the simulated cases of one property in worker processes and reports."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from .core import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
WORKERS = int(os.environ.get("VSIM_WORKERS") or 8)
COMMON_STUBS = "simulated: sources and transport of samples, clocks where a run patches them"


DEATHS = (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)


def env(hashseed="0"):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONPATH=VERIF + ":" + REPO, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1",
             PYTHONPYCACHEPREFIX="/nonexistent-vsim-pycache", PYTHONNOUSERSITE="1", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell")
    return e


def worker(args, hashseed="0", **kw):
    return subprocess.Popen([PY, "-W", "ignore", "-m", "vsim.worker"] + [str(a) for a in args], cwd=VERIF,
                            env=env(hashseed), **kw)


def known_ids(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return {k["id"] for k in json.load(open(path))["known"] if k["property"] == prop}
    except FileNotFoundError:
        return set()


def main(argv):
    if argv[0] == "--replay":
        return subprocess.call([PY, "-W", "ignore", "-m", "vsim.worker", "replay", os.path.abspath(argv[1])],
                               cwd=VERIF, env=env())
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED") or 1)
    sys.path.insert(0, VERIF)
    info = json.loads(subprocess.check_output(
        [PY, "-W", "ignore", "-c", "import json,importlib;m=importlib.import_module('vsim.props.%s');"
         "print(json.dumps(dict(CASES=m.CASES,RULE=m.RULE,REAL=m.REAL,STUB=m.STUB,ASSUME=m.ASSUME,"
         "COVER=m.COVER)))" % prop.lower()], cwd=VERIF, env=env()))
    n = int(os.environ.get("VSIM_CASES") or info["CASES"][tier])
    t0 = time.time()
    budget = 420 if tier == "quick" else 780
    print(f"property={prop} tier={tier} seed={seed} runs={n} workers={WORKERS}", flush=True)
    tmp = tempfile.mkdtemp(prefix="vsim-")
    try:
        return _run(prop, tier, seed, info, n, t0, budget, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(prop, tier, seed, info, n, t0, budget, tmp):
    stop = os.path.join(tmp, "stop")
    outs = [os.path.join(tmp, f"w{w}.json") for w in range(WORKERS)]
    errs = [open(os.path.join(tmp, f"w{w}.err"), "w") for w in range(WORKERS)]
    ps = [worker(["batch", prop, tier, seed, w, WORKERS, n, outs[w], stop, budget], stderr=errs[w])
          for w in range(WORKERS)]
    for p in ps:
        try:
            p.wait(max(1, budget + 150 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
    agg, broken, died = [], [], []
    for w in range(WORKERS):
        for _ in range(6):
            # the interpreter died: judge that run alone, then go on behind it
            if ps[w].returncode not in DEATHS or not os.path.exists(outs[w] + ".cur"):
                break
            text = open(outs[w] + ".cur").read().strip()
            if not text:
                break
            i, o = int(text), outs[w] + ".alone"
            died.append(i)
            p = worker(["alone", prop, tier, seed, i, o], stderr=subprocess.DEVNULL)
            try:
                p.wait(130)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            v = json.load(open(o))["violation"] if os.path.exists(o) else None
            if v is not None:
                ps[w].returncode = 0
                dump = {"runs": 0, "counters": {}, "cover": [], "digests": {}, "nontrivial": 0, "simtime": 0.0,
                        "known": {}, "violation": v, "cut": False, "cases": [], "samples": []}
                json.dump(dump, open(outs[w], "w"))
                break
            ps[w] = worker(["batch", prop, tier, seed, i + WORKERS, WORKERS, n, outs[w], stop,
                            max(1, budget - (time.time() - t0))], stderr=errs[w])
            try:
                ps[w].wait(max(1, budget + 150 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                ps[w].kill()
                ps[w].wait()
        if os.path.exists(outs[w]) and ps[w].returncode == 0:
            agg.append(json.load(open(outs[w])))
        else:
            broken.append(f"worker {w} ended with {ps[w].returncode}: " +
                          open(errs[w].name).read()[-3000:])
    t_batch = time.time() - t0
    viols = sorted((a["violation"] for a in agg if a["violation"]), key=lambda v: v["i"])

    # determinism: the same runs again, other process layout and other hash seed
    recorded = {}
    for a in agg:
        recorded.update({int(k): v for k, v in a["digests"].items()})
    idx = sorted(recorded)
    # a spread over the whole batch
    step = max(1, len(idx) // (48 if tier == "quick" else 400))
    idx = idx[::step]
    mism, redone = [], 0
    if idx and not viols and not broken:
        groups = [idx[k::3][::-1] for k in range(3)]
        dps = []
        for k, g in enumerate(groups):
            if g:
                o = os.path.join(tmp, f"d{k}.json")
                dps.append((o, worker(["digests", prop, tier, seed, ",".join(map(str, g)), o],
                                      hashseed=str(1000 + k), stderr=subprocess.DEVNULL)))
        for o, p in dps:
            try:
                p.wait(120)
            except subprocess.TimeoutExpired:
                p.kill()
            if os.path.exists(o):
                for k, v in json.load(open(o)).items():
                    redone += 1
                    if recorded[int(k)] != v:
                        mism.append(int(k))

    counters, cover, cases = {}, set(), set()
    known = {}
    for a in agg:
        for k, c in a["counters"].items():
            counters[k] = counters.get(k, 0) + c
        cover |= set(a["cover"])
        cases |= set(a["cases"])
        known.update(a["known"])
    runs = sum(a["runs"] for a in agg)
    simtime = sum(a["simtime"] for a in agg)
    samples = sorted((s for a in agg for s in a["samples"]), key=lambda s: s["index"])[:2]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(cases),
        "rule": info["RULE"],
        "samples": [json.dumps(s)[:3000] for s in samples] or ["none completed"],
        "runs_planned": n,
        "cut_short_by_deadline": any(a["cut"] for a in agg),
        "seeds": runs,
        "runs_per_hour": round(runs / max(t_batch, 1e-3) * 3600),
        "simulated_seconds": round(simtime, 3),
        "faults_injected": {k[6:]: c for k, c in sorted(counters.items()) if k.startswith("fault:")},
        "probes": {k: c for k, c in sorted(counters.items()) if not k.startswith("fault:")},
        "distinct_states_or_interleavings": {"measure": info["COVER"], "count": len(cover)},
        "components": {"real": info["REAL"], "stub": info["STUB"]},
        "determinism": {"runs_repeated_in_other_processes_and_hash_seeds": redone, "digest_mismatches": mism},
        "workers": WORKERS,
        "runs_in_which_the_interpreter_died": died,
    }

    listed = known_ids(prop)
    for k in sorted(known):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
        else:
            viols.append({"i": -1, "case": {}, "kind": "unlisted-finding:" + k, "detail": known[k]})
    cov["known_findings_seen"] = sorted(known)

    rc = 0
    vline = None
    if viols:
        rc = 1
        vline = report(prop, tier, seed, viols[0], tmp, t0)
    elif broken:
        rc = 2
        for b in broken:
            print("ERROR " + b, file=sys.stderr)
    elif any(a["cut"] for a in agg):
        print("note: stopped by the time budget before all planned runs")
    if mism and not viols:
        print(f"note: {len(mism)} repeated runs gave other values in another process: {mism[:5]}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": info["ASSUME"], "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{runs} simulated runs, {len(cases)} distinct non-trivial, {len(cover)} distinct {info['COVER']}, "
          f"{redone} repeated for determinism ({len(mism)} differed), {time.time() - t0:.1f} s", flush=True)
    if vline:
        print(vline, flush=True)
    return rc


def report(prop, tier, seed, v, tmp, t0, mini=True):
    """Minimise, write the replay file, replay it in a fresh process."""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    case, detail, tried, note = v["case"], v["detail"], 0, ""
    left = 840 - (time.time() - t0)
    if mini and v["i"] >= 0 and left > 60:
        cf, of = os.path.join(tmp, "case.json"), os.path.join(tmp, "min.json")
        json.dump(case, open(cf, "w"))
        p = worker(["minimise", prop, cf, v["kind"], of, min(45, left / 3)], stderr=subprocess.DEVNULL)
        try:
            p.wait(min(200, left - 30))
        except subprocess.TimeoutExpired:
            p.kill()
        if os.path.exists(of):
            m = json.load(open(of))
            tried = m["tried"]
            if m["detail"] is not None:
                case, detail = m["case"], m["detail"]
            else:
                note = "the violation did not repeat in another process; original case kept"
    path = os.path.join(rdir, f"{prop}.json")
    rec = {"property": prop, "kind": v["kind"], "detail": detail, "seed": seed, "tier": tier, "index": v["i"],
           "case": case, "minimiser_runs": tried, "note": note}
    json.dump(rec, open(path, "w"), indent=1)
    if mini and v["i"] >= 0 and left > 40:
        try:
            r = subprocess.run([PY, "-W", "ignore", "-m", "vsim.worker", "replay", path], cwd=VERIF, env=env(),
                               capture_output=True, text=True, timeout=150)
            rec["replayed_in_fresh_process"] = (r.returncode == 1 or v["kind"] == "process-death" and
                                                r.returncode in DEATHS)
            for line in r.stdout.splitlines():
                if line.startswith("digest="):
                    rec["digest"] = line.split()[0][7:]
        except subprocess.TimeoutExpired:
            rec["replayed_in_fresh_process"] = v["kind"] == "no-progress"
        json.dump(rec, open(path, "w"), indent=1)
    print(f"kind: {v['kind']}")
    print(f"detail: {detail}")
    print(f"minimised case ({tried} runs): {json.dumps(case)[:1500]}")
    if not rec.get("replayed_in_fresh_process", True):
        print("note: replay in a fresh process did not show the same violation")
    return f"VIOLATION property={prop} replay={path}"


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
