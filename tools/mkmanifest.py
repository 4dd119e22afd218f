"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "seeded search over programs, worker counts, core counts and worker schedules against the recorded events",
    "C02": "seeded search over disk, worker and library fault points against fail-stop and retry",
    "C03": "seeded search over truncation/corruption points and worker deaths under a step budget",
}
DEFAULT = "seeded search over simulated executions, schedules, histories and faults; a pass says nothing outside the runs made"
NA = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        m = os.path.join(V, "dst", "props", p.lower() + ".py")
        if os.path.exists(m):
            c = p.lower()
            checks.append({
                "property": p,
                "quick_cmd": "./run.py %s --tier quick" % c,
                "thorough_cmd": "./run.py %s --tier thorough" % c,
                "technique": "deterministic simulation with fault injection (seeded schedule and fault search, replayable)",
                "level": "exploration",
                "level_note": NOTES.get(p, DEFAULT),
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "no check yet")})
    json.dump({"version": 1, "setup_cmd": "./run.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
