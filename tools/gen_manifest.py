#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "stateless model checking of the real code: exhaustive departure-bounded schedule and input enumeration under a controlled Go runtime, also with scheduling points at every statement that touches shared memory, plus source-DPOR where feasible"
RACE = "stateless model checking of the real code: exhaustive departure-bounded schedule enumeration, every execution monitored by the happens-before race detector"
NOTE = ("Every execution of the property's bounded scenarios with up to the stated number of departures from the default schedule (and, for the scenarios marked dpor, every interleaving) "
        "satisfies the oracle. The explored executions are executions of /repo's code compiled against a Go runtime with a controlled scheduler and virtual time; that runtime (mcrt/) and the "
        "harness oracles are trusted. Sequential consistency is assumed between scheduling points; larger programs and more departures are not covered. Bounds and counts: the evidence file.")
m = {
    "version": 1,
    "setup_cmd": "python3 build.py core .work/setup && python3 build.py core .work/setup race && python3 build.py core .work/setup fine",
    "checks": [], "not_applicable": [],
    "notes": "No hooks: the instrumentation lives in an overlay of the Go standard library and runtime (go build -overlay), /repo's code is compiled as it is, and in a second build with calls of the scheduler inserted between statements (mcrt/fine, also through the overlay). known_findings.txt lists the defects found and repaired.",
}
for p in P:
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": RACE if p["id"] == "D01" else TECH,
        "level": "model_checking",
        "level_note": NOTE,
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
