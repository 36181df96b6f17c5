#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, subprocess, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(d + "/properties.jsonl")]
MC = "model_checking"
BUILT = {
 "C03": ("exhaustive enumeration of small point sets x parameters on the real builder, structural invariant on every built tree", MC,
         "Every point sequence / grid subset up to the stated size with every parameter setting is built with the real code and every node checked; larger structured sets cover the size-dependent branches. Nothing is claimed beyond those bounds."),
 "C04": ("exhaustive enumeration of small point sets x parameters on the real builder, geometric invariant on every node", MC,
         "As C03; distances on the chosen dyadic coordinates are exact, so covering, separation and radius are compared exactly."),
 "C06": ("exhaustive enumeration of trees x query points x k against brute force", MC,
         "All queries on a lattice on and between the data points, all k up to beyond the point count, compared with brute force."),
 "C07": ("exhaustive enumeration of trees x query points x k against brute force over node centres", MC, "As C06 over the distinct node centres."),
 "C08": ("exhaustive enumeration of trees x query points against the partition rule applied step by step", MC,
         "Every step of every path is recomputed by brute force from the tree's nodes; recorded paths of all data points are compared with computed ones, before and after a save/load."),
}
exec(open(d + "/tools/built_more.py").read()) if os.path.exists(d + "/tools/built_more.py") else None
checks = []
for p in props:
    if p in BUILT:
        t, lvl, note = BUILT[p]
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": lvl, "level_note": note})
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg goko_verif (off by default)", "enable": "RUSTFLAGS=\"--cfg goko_verif\" (set by lib.sh for the harness builds)",
               "source_commits": [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("verif:")]},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in BUILT]}
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
