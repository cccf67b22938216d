#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl. Run by hand when the list changes."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C24": "Pure conversions and textual forms without any concurrency, time, I/O or peer: a simulated schedule or fault cannot influence them. (Where conversions feed commands on the wire they are covered by C06, C07 and C08.)",
 "C25": "A statement about wall-clock time on real hardware: in the simulator time is virtual, so it cannot be decided by it.",
}
NOTE = {
 "default": "Seeded random search over schedules, faults and workloads in a deterministic simulation; every run is judged by an oracle over its full history. Shows absence of violations on everything explored, not for all executions.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        technique="deterministic simulation with fault injection (seeded search over schedules and faults, history oracle)",
        level="exploration", level_note=NOTE.get(i, NOTE["default"])))
m = dict(version=1, setup_cmd="bash check.sh build", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
