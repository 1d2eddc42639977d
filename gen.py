#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property declarations in props/*.py-less text below.
Each property lives in props/<ID>.json (one file per property, hand-written)."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
NOTE = ("TLC validates every recorded execution of the real code against the TLA+ module {mods}; every clause is decided by the "
        "specification on exact integers/rationals (or stated fixed-point tolerance). {extra}Trusted: TLC, the value encoding in lib/harness.py, "
        "the driver's projection of API results. Inputs are sampled (seeded) within small bounds, except where the specification enumerates them.")
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(H, "props", "*.json"))):
    d = json.load(open(f))
    v = d.pop("verif")
    props.append(d)
    if "not_applicable" in v:
        na.append({"property": d["id"], "reason": v["not_applicable"]})
        continue
    checks.append({"property": d["id"], "quick_cmd": f"./check {d['id']} quick", "thorough_cmd": f"./check {d['id']} thorough",
                   "technique": v["technique"], "level": "model_checking",
                   "level_note": NOTE.format(mods=v["modules"], extra=(v.get("note", "") + " ") if v.get("note") else "")})
with open(os.path.join(H, "properties.jsonl"), "w") as o:
    for d in props:
        o.write(json.dumps(d) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the public API exposes the abstract state. fix: commits are listed in known_findings.jsonl."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
import subprocess
print(len(props), "properties,", len(checks), "checks")
