#!/usr/bin/env python3
"""Writes MANIFEST.json for the scenarios that exist in sim/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(HERE + "/properties.jsonl") if l.strip()]
PURE = {
    "C18": "Pure, stateless functions of their arguments: no schedule, time, I/O, allocation or history for a simulator to vary. (Where they matter to other properties - gain in dB, phases of signals, levels of matchers - the reference models of C01, C05 and C13 check their results.)",
}
NOTES = {
    "C01": "Sampled executions: stock signals with chains in random interleavings, partitions and resets against an independent model with stated tolerances.",
}

checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in PURE:
        na.append({"property": i, "reason": PURE[i]})
    elif not os.path.exists(HERE + "/sim/" + i.lower() + ".cpp"):
        na.append({"property": i, "reason": "The simulation scenario for it is not built yet."})
    else:
        checks.append({
            "property": i,
            "quick_cmd": "python3 ./check %s --tier quick" % i,
            "thorough_cmd": "python3 ./check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over workloads, schedules and fault sequences, minimised replayable traces",
            "level": "exploration",
            "level_note": "Seeded sampling, not exhaustive: the property held in every simulated run. " + NOTES.get(i, "") +
                          " The real library code runs; the simulator replaces disk, clock, entropy, heap and scheduler. Trusted: the simulator core and the reference models in sim/ (see DESIGN.md).",
        })
json.dump({"version": 1, "setup_cmd": "python3 ./check --setup", "checks": checks, "not_applicable": na},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
