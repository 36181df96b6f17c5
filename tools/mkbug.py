#!/usr/bin/env python3
"""mkbug.py <id> <property> <spec.py>: spec.py defines EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN, optional DEPS."""
import sys, os, subprocess, json
bid, prop, spec = sys.argv[1:4]
ns = {"DEPS": ""}
exec(open(spec).read(), ns)
d = f"/verif/seeded/{bid}"
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
try:
    for f, old, new in ns["EDITS"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
t = open("/verif/tools/demo_template.sh").read().replace("@DEPS@", ns["DEPS"])
open(d + "/demo.sh", "w").write(t)
os.chmod(d + "/demo.sh", 0o755)
open(d + "/main.rs", "w").write(ns["MAIN"])
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print(diff)
