"""Write MANIFEST.json from the check modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        tech, note = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": "/opt/venv/bin/python check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py " + p,
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
