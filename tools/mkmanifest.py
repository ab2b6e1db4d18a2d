"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
N = json.load(open(f"{V}/tools/level_notes.json"))
checks, na = [], []
for d in L:
    i = d["id"]
    if os.path.exists(f"{V}/harness/props/{i.lower()}.py"):
        n = N.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "technique": "TLA+ specification checked with TLC; conformance "
                         "of the real code by replaying TLC-generated and "
                         "seeded scenarios and validating the recorded "
                         "traces with TLC" + n.get("technique", ""),
            "level": "model_checking",
            "level_note": n.get("note", "TLC model checking of the design "
                                "model; trace validation of the code")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks,
     "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
