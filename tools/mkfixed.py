"""Refreshes the "fixed" list of known_findings.json from the fix: commits in /repo ("fix: <what> (Cxx)")."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EARLY = {"4437c0e": "C01", "f5786cb": "C01", "1f68d5a": "C01", "70c5ff2": "C01", "a92a53a": "C02", "9f25ce2": "C02", "453b419": "C02"}
p = os.path.join(ROOT, "known_findings.json")
k = json.load(open(p))
k["fixed"] = []
for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()):
    m = re.match(r"(\w+) fix: (.*?)(?: \((C\d\d)\))?$", l)
    if m:
        k["fixed"].append(f"fixed: property={m[3] or EARLY.get(m[1][:7], '?')} {m[1]} {m[2]}")
json.dump(k, open(p, "w"), indent=1)
print(len(k["fixed"]), [x for x in k["fixed"] if "=?" in x])
