#!/usr/bin/env python3
"""Writes MANIFEST.json from gen/props.py (so that the two never disagree)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "gen"))
import importlib.util
spec = importlib.util.spec_from_file_location("__main__ck", os.path.join(VERIF, "check.py"))
ck = importlib.util.module_from_spec(spec)
spec.loader.exec_module(ck)
sys.modules["__main__"] = ck
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
doc = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {
        "guard": "cfg(gecs_verif)",
        "enable": "RUSTFLAGS=\"--cfg gecs_verif --cap-lints allow\" (set by check.py for every harness build)",
        "source_commits": ["3cea521"],
    },
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "not built yet"} for i in ids if i not in PROPS],
    "notes": "See DESIGN.md. Every check rebuilds the harness against /repo's working tree.",
}
import subprocess
doc["hooks"]["source_commits"] = [
    subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip()
    for c in ("3cea521", "8e080ca")
]
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
