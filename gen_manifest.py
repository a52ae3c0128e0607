#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules in dst/props."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

PY = "/opt/venv/bin/python"
NOTE = ("Seeded sampling: the property held in every simulated run of the batch; not a proof. Trusted: the simulator (dst/sim.py), the simulated peers and wire "
        "format (dst/world.py, dst/zwire.py), the oracle of the property, CPython's asyncio on virtual time.")
NA = {
    "C20": "Composing and decoding are pure functions of their input: no schedule, clock, fault or interleaving is involved, so simulation would only be input generation in disguise. "
           "The wire formats the other properties depend on are checked there against an independent codec.",
}


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for pid in ids:
        if pid in NA:
            na.append({"property": pid, "reason": NA[pid]})
            continue
        if not os.path.exists(os.path.join(HERE, "dst", "props", pid.lower() + ".py")):
            na.append({"property": pid, "reason": "check not built yet"})
            continue
        mod = importlib.import_module("dst.props." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "%s check.py %s" % (PY, pid),
            "thorough_cmd": "VERIF_TIER=thorough %s check.py %s" % (PY, pid),
            "evidence_file": "evidence/%s.json" % pid,
            "technique": getattr(mod, "TECHNIQUE", "deterministic simulation with fault injection: seeded search over schedules, timings and faults, outcome compared with a reference model"),
            "level": "exploration",
            "level_note": getattr(mod, "LEVEL_NOTE", NOTE),
        })
    data = {
        "version": 1,
        "setup_cmd": "%s -B -c \"import asyncio, yaml, crcmod\"" % PY,
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo are needed: the simulator uses the asyncio event loop, the file functions and the clock as seams. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(data, fd, indent=1)
        fd.write("\n")


main()
