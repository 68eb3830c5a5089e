"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    mod = os.path.join(H, "vf", "props", p["id"].lower() + ".py")
    if not os.path.exists(mod):
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    src = open(mod).read()
    m = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": "property-based testing (Hypothesis): " + (m.group(1) if m else "generated cases against a reference model"),
        "level": "exploration",
        "level_note": "Seeded random generation with shrinking; holds for the generated cases only. Domain limits are listed as assumptions in the evidence.",
    })
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import soil, mesa\" && ./check selftest",
           "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
