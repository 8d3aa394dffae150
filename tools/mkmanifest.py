"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(V + "/lib/zv/props/%s.py" % pid.lower()):
        m = importlib.import_module("zv.props." + pid.lower())
        checks.append(dict(property=pid, quick_cmd="./check " + pid, thorough_cmd="./check " + pid + " --tier thorough",
                           evidence_file="evidence/%s.json" % pid,
                           technique=getattr(m, "TECHNIQUE", "property-based testing against a reference model (Hypothesis)"),
                           level="exploration",
                           level_note=getattr(m, "LEVEL_NOTE", "Generated-input search with shrinking against an explicit oracle; it establishes no absence beyond the cases explored. " + " ".join(getattr(m, "ASSUMPTIONS", [])))))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="All checks build what they need from /repo's working tree into /verif/build (git-ignored), keyed by a hash of the sources. No hooks in /repo are needed.")
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
