#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
na = {
    "N01": "Rendering is a pure function of its arguments: no scheduling, time, I/O, randomness or fault can influence it, so simulating schedules and faults decides nothing that calling it once does not.",
    "N02": "Comparison is a pure function of two messages: no scheduling, time, I/O, randomness or fault can influence it, so simulating schedules and faults decides nothing that calling it once does not.",
}
race = {"C01", "C11", "C19", "C22", "C23", "C25"}
built = os.environ.get("BUILT", "").split() or None
checks = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    if built and i not in built:
        na[i] = "Not built yet."
        continue
    t = "deterministic simulation with fault injection: seeded search over schedules and faults, histories checked against a reference model"
    n = ("Exploration by seeded search: a fixed number of simulated runs of the real code, each with its own application, operations, faults, "
         "clock and interleaving (switches at any statement), all drawn from VERIF_SEED and exactly repeatable. It shows the property for the runs "
         "explored, not for all. It trusts the reference model, the patched Go scheduler, and that dependencies need switching only where they block.")
    if i in race:
        t += "; part of the runs under the Go race detector"
        n += " Part of the runs use a build with the race detector, in which the simulator's own hand-over between tasks creates no ordering."
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": t, "level": "exploration", "level_note": n,
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())]}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
