#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's working tree.  Exit 0: held on everything explored.
Exit 1 and "VIOLATION property=<id> replay=<path>": broken.
"""
import os
import sys

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")   # only tools/seedtest.py sets it
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "LANG": "C.UTF-8",
       "PYTHONPATH": REPO, "VERIF_REEXEC": "1"}
if os.environ.get("VERIF_REEXEC") != "1":
    e = dict(os.environ)
    e.update(ENV)
    os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], e)

import argparse
import importlib
import json
import pathlib
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from harness import framework, registry

    mod_name, fn = registry.CHECKS[a.property]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        rec = json.loads(pathlib.Path(a.replay).read_text())
        from harness import tlc
        m, f = rec["driver"].split(":")
        func = getattr(importlib.import_module(m), f)
        tr = framework._drive_one((func, rec["script"], 60))
        matched, _, _ = tlc.judge(rec["module"], [tr], cfg=rec["cfg"])
        for i, e in enumerate(tr):
            print(("  " if i < matched[0] else "! ") + json.dumps(e))
        if matched[0] < len(tr):
            print(f"VIOLATION property={a.property} replay={a.replay}")
            return 1
        return 0
    ctx = framework.Ctx(a.property, tier, seed)
    try:
        mod = importlib.import_module("harness." + mod_name)
        getattr(mod, fn)(ctx)
    except Exception:
        # total verdict: if the code under test cannot even be driven, say so
        ctx.fail("crash", {"traceback": traceback.format_exc()})
        traceback.print_exc()
    return ctx.finish()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
