"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
DYN = ("TLA+ (TLC): exhaustive design model, replay of its behaviours into both engines, trace validation of recorded executions",
       "Exhaustive over all behaviours of the listed small configurations for the design; for the code: every recorded step of generated "
       "scenarios in both engines is checked against the specification's laws, and behaviours computed by TLC are replayed exactly. "
       "Not a proof: networks of at most about ten links and fifty platoons; the recorder (rec.py) and TLC are trusted.")
T = {
    "C20": ("TLA+ (TLC): trace validation of executions with interventions, with control runs", DYN[1]),
}
CLAIMED = {"C%02d" % i: DYN for i in range(1, 11)}
CLAIMED["C20"] = T["C20"]
JUDGE = {}
p = os.path.join(R, "tools", "claims.json")
if os.path.exists(p):
    for k, v in json.load(open(p)).items():
        CLAIMED[k] = tuple(v)
checks, na = [], []
for d in props:
    i = d["id"]
    if i in CLAIMED:
        c = "/opt/venv/bin/python harness/check.py " + i
        checks.append(dict(property=i, quick_cmd=c, thorough_cmd=c + " thorough", evidence_file="evidence/%s.json" % i,
                           technique=CLAIMED[i][0], level="model_checking", level_note=CLAIMED[i][1]))
    else:
        na.append(dict(property=i, reason="not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python harness/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed through the public API and attributes."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
