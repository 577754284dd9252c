"""Writes MANIFEST.json from the properties and the checks that exist (python3 tools/mk_manifest.py)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(R, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "pv", "checks", i.lower() + ".py")) and i in T:
        checks.append({"property": i, "quick_cmd": f"sh check.sh {i} --tier quick", "thorough_cmd": f"sh check.sh {i} --tier thorough",
                       "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": T.get(i, ["", ""])[1] if i in T else "check not built yet"})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check runs the real code from /repo/src under generated workloads with monitors; known genuine defects are in known_findings.txt."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
