"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "sa", "checks", i.lower() + ".py")):
        m = importlib.import_module("sa.checks." + i.lower()).CHECK
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python check.py " + i,
                       "thorough_cmd": "/opt/venv/bin/python check.py --thorough " + i,
                       "technique": m.technique, "level": "other", "level_note": m.level_note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Every check parses /repo's current .py/.pyx/.pxd sources on each run; nothing is built or executed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
