#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "delivery schedules and transport faults against one run() over the delivered sequence; values compared within the rounding measured by double/extended reference models",
 "C02": "histories with and without interposed predictions; values compared as in C01",
 "C03": "sample-by-sample comparison with executable models of all 15 laws; OCNLMS as built (known finding)",
 "C04": "hostile buffer owner against hygienic owner; all public functions; results rechecked at the end of each run",
 "C05": "real threads, one baton, preemption at line or bytecode granularity inside the library, injected exceptions; each participant against its solo run",
 "C06": "checkpoint by deepcopy/pickle, crash inside a later call, restore in a new process image (fresh import) or a new process",
 "C07": "malformed samples injected in a stream; continuation against an untouched clone",
 "C08": "readers and exceptions at every yield point of a training call; weights must be those of a whole number of samples",
 "C09": "generator states before and after every call, reproducibility from the seed, sample statistics of draws",
 "C10": "the same computations in processes with other hash seeds, clocks, import and call orders, and with labels of chosen hash values",
 "C11": "import failures injected at the n-th import of any SciPy module, in process and in subprocesses",
 "C12": "scores of growing and truncated histories against formula models; threshold ties within rounding are not decided",
 "C13": "training splits against a backpropagation model in extended precision; shuffle order reconstructed from the errors",
 "C14": "fault bursts, then clean data; monotone misalignment and recovery within calibrated bounds",
 "C15": "arrival segmentations and restarts against whole-series formulas",
 "C20": "exceptions raised at sampled lines of the library and accesses of lazily read data; cancellations must come out unchanged, failures must not yield other results",
 "C21": "global process state compared around every call, audit events, and results in processes put into awkward conditions",
 "C22": "traced memory over repeated random cycles with failures and cancellations, weak references, executed lines early and late, peak memory against data length",
}
NA = {
 "C16": "PCA is a pure function of one matrix: no schedule, clock, I/O, randomness, state or fault for the property to depend on",
 "C17": "optimality of the LDA projection is a pure function of data and labels; its only schedule-dependent part (class order) is decided under C10",
 "C18": "argument validation of stateless functions is a pure function of the arguments; rejection inside a stateful history is decided under C07",
 "C19": "default standardisation of one complete series is a pure function of its input; its streaming part is decided under C15",
}
checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
for k, v in NOTE.items():
    if not os.path.exists(os.path.join(V, "vsim", "props", k.lower() + ".py")):
        na.append({"property": k, "reason": "check not built yet"})
        continue
    checks.append({
        "property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
        "level": "exploration", "level_note": "Sampled, not exhaustive: " + v + "."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks were added to /repo: threads, faults, clocks, imports and randomness are controlled from outside "
                    "(sys.settrace, import hooks, patched clocks, the global generator). Replay: ./check.sh --replay FILE"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
