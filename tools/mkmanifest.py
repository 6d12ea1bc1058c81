"""Generate MANIFEST.json from the property modules"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
        m = importlib.import_module("props." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE,
        })
    else:
        na.append({"property": i, "reason": "check not built yet (in progress)"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: everything is observed through the public API, the command line, the file system and a fake CDN.",
    }, f, indent=1)
print(len(checks), "checks,", len(na), "not applicable")
