#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from config import CHECKS
NA = {
    "C30": "pure arithmetic on its arguments: no concurrency, time, I/O or multi-party behaviour for a simulator to vary",
    "C31": "pure per-point predicates: the result is a function of one cloud and the settings, nothing for a scheduler or fault injector to vary (the thread-independence of the same filters is C20)",
    "C32": "numerical quality of a pure function of one cloud; single-threaded, no time, no I/O",
    "C33": "algebraic identities of pure functions; single-threaded, no time, no I/O",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="./check " + p, evidence_file="evidence/%s.json" % p,
                           technique="deterministic simulation with fault injection: seeded search over schedules and faults (world %s)" % ", ".join(c["worlds"]),
                           level="exploration", level_note=c["note"]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "not built yet: no simulated world decides it so far")))
m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: seams are link-time (pthread, futex, OpenMP, libc file and clock entry points are defined by the harness executable) and "
               "compile-flag (thread-sanitizer code generation with our own runtime). ./replay FILE re-runs a failure. known-findings.jsonl lists findings.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
