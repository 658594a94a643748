#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "P30": "Unit composition is a pure function of its arguments: no schedule, clock, I/O, fault or party for a simulation to vary. (That the file shows the unit of every registered metric is part of P02.)",
 "P31": "Whether a value fits a type is a pure function of its arguments: no schedule, clock, I/O, fault or party for a simulation to vary. (The refusal of unsuitable values by live metrics is exercised in P05.)",
}
NOTE = {
 "P07": "The arithmetic reference is a histogram of the vendored hdrhistogram library driven sequentially; the linearizability search is bounded per history, histories beyond the bound are counted as inconclusive.",
 "P16": "Reader goroutines are scheduled by the simulator; the file contents come from simulated clients plus the stored version 1 and 2 files.",
 "P17": "Corruption is sampled: truncation, torn pages, zeroed ranges, bit flips and hostile field values.",
 "P19": "Races are decided by a happens-before detector inside the simulator on the instrumented accesses of the speed packages, per explored schedule.",
}
tech = "deterministic simulation with fault injection: seeded search over schedules, clocks, faults and crash points of the real code (source-rewritten onto a simulator), checked against a reference model"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": tech,
        "level": "exploration",
        "level_note": NOTE.get(i, "") or "Seeded search: holds on the executions explored (numbers in the evidence file), not a proof.",
        "evidence_file": "evidence/%s.json" % i,
    })
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: build.sh rewrites a copy of /repo's working tree (and of hdrhistogram) so that goroutines, locks, channels, clocks, randomness, file system, mmap and memory accesses go through the simulator. replay.sh FILE runs a recorded violation again."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
