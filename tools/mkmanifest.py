"""Writes /verif/MANIFEST.json from the list of finished checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n and n.get("note"):
        checks.append({
            "property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
            "technique": n.get("technique", "TLA+ specification checked with TLC; its behaviours replayed into the implementation"),
            "level": "model_checking", "level_note": n["note"], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": (n or {}).get("na", "check under construction, not claimed yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "POSTBOUND_VERIF", "enable": "no hooks were necessary: the checks only use the public API, so nothing has to be switched on", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
