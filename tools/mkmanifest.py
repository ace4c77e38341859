"""Writes MANIFEST.json from the drivers present in drv/."""
import os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "drv", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n.get("technique", "TLA+ specification checked with TLC; its behaviours replayed into nosnoc and the recorded traces validated against it"),
                           level="model_checking",
                           level_note=n.get("note", "")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python setup.py", checks=checks, not_applicable=na,
         notes="TLA+ with TLC; specifications in spec/, bindings in drv/ and lib/. No hooks in /repo: everything is observed at the "
               "public API and at the casadi.nlpsol boundary. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
