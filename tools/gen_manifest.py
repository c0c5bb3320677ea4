#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the checks the simulator lists."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = re.findall(r'id: "(C\d+)"', open(os.path.join(here, "sim/src/props.rs")).read())
notes = json.load(open(os.path.join(here, "tools/level_notes.json")))
na = json.load(open(os.path.join(here, "tools/not_applicable.json")))
checks, nalist = [], []
for p in props:
    i = p["id"]
    if i in ids:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh check {i}",
            "technique": "deterministic simulation with fault injection (seeded schedules, faults and histories against a reference model)",
            "level": "exploration",
            "level_note": notes.get(i, notes["default"]),
        })
    else:
        nalist.append({"property": i, "reason": na.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": nalist,
    "notes": "No hooks in /repo: every seam the simulation needs (caller callbacks, allocator, drop points, buffers) is reachable through the public API or the process's global allocator.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(nalist), "not applicable")
