#!/usr/bin/env python3
"""Development aid (no check uses it): python3 tools/seeded.py [ID ...]
For every planted bug: scratch copy of /repo, patch, existing tests, demo on both
trees, then the quick check of its property against the patched copy."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
E = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def one(i, checks=True, props=None):
    d = os.path.join(S, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = f"/tmp/m/seed-{i}-{os.getpid()}"
    demo = tmp + "-demo"
    os.makedirs("/tmp/m", exist_ok=True)
    shutil.copytree("/repo", tmp)
    shutil.copytree(d, demo)
    try:
        a = sh(f"bash {demo}/demo.sh", tmp, timeout=300)
        p = sh(f"git apply {d}/patch.diff", tmp)
        if p.returncode:
            return f"{i}: patch does not apply: {p.stderr}"
        b = sh(f"bash {demo}/demo.sh", tmp, timeout=300)
        t = sh(f"{PY} -m pytest -q -p no:cacheprovider -W ignore -o python_files=*.py tests", tmp, env=E)
        tests = t.stdout.strip().splitlines()[-1]
        res = ""
        for q in (props or [prop]) if checks else []:
            t0 = time.time()
            c = sh(f"./check.sh {q} quick", V, env=dict(os.environ, VSIM_REPO=tmp))
            lines = c.stdout.splitlines()
            kind = [x for x in lines if x.startswith("kind:")]
            res += f" | {q} rc={c.returncode} {kind[0] if kind else ''} {time.time() - t0:.0f}s"
            if c.returncode not in (0, 1):
                res += c.stderr[-500:]
        ok = a.returncode == 0 and b.returncode != 0 and "28 passed" in tests
        return f"{'ok ' if ok else 'BAD'} {i} ({prop}) demo {a.returncode}/{b.returncode} tests {tests}{res}" + \
            ("" if ok else "\n" + a.stdout[-300:] + a.stderr[-600:] + b.stderr[-300:])
    finally:
        shutil.rmtree(tmp)
        shutil.rmtree(demo)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    ids = [a for a in args if os.path.isdir(os.path.join(S, a))]
    props = [a for a in args if a not in ids] or None
    for i in ids or sorted(os.listdir(S)):
        print(one(i, "-n" not in sys.argv, props), flush=True)
