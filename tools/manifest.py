"""Generates /verif/MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from harness import registry
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = registry.NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC; no hooks in /repo are needed: the harness observes public interfaces and injected collaborators."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
