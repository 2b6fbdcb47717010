"""Regenerates properties.jsonl and MANIFEST.json from the single sources."""
import json, os, sys, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import gen_properties as g
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in g.P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
done = subprocess.check_output([os.path.join(ROOT, "check"), "--list"], text=True).split() if len(sys.argv) < 2 else sys.argv[1:]
checks, na = [], []
NOTES = getattr(g, "LEVEL_NOTES", {})
for p in g.P:
    i = p["id"]
    if i in done:
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
                           technique="property-based testing (Hypothesis generators, shrinking; reference-model / metamorphic / differential oracles)",
                           level="exploration", level_note=NOTES.get(i, "Random and structured generated inputs within the stated bounds; no exhaustiveness claimed."),
                           evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason="no check built yet for this property"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="All checks run the pure-Python library straight from /repo's working tree with /opt/venv/bin/python; Hypothesis comes from the pre-installed tooling venv.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
