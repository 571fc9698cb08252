"""Writes MANIFEST.json from the properties and the table of checks below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from tools.notes import NOTES

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks, na = [], []
for i in ids:
    if i in check.FAMILY:
        tech, note = NOTES[i]
        checks.append({"property": i,
                       "quick_cmd": f"/opt/venv/bin/python check.py {i}",
                       "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks observe the public interface, files and process state",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; conformance harness in harness/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
