"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import checks
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i not in checks.STAGES:
        m["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "check under construction")})
        continue
    m["checks"].append({
        "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": checks.TECHNIQUE[i],
        "level": checks.LEVEL.get(i, "exploration"), "level_note": checks.NOTE.get(i, checks.NOTE["*"])})
m["notes"] = "No hooks in /repo: storage calls, bcrypt work and the internal tag package are reached through build overlays and a module replacement generated under build/ (tools/prepare.py)."
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
