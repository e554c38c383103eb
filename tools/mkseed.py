"""mk(id, property, [(file, old, new)...], needs, breaks, demo_py): writes seeded/<id>/."""
import json, pathlib, subprocess, tempfile, shutil
V = pathlib.Path(__file__).resolve().parent.parent
SH = '''#!/bin/bash
# exit 0: behaves as it should; non-zero: broken
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def mk(id, prop, edits, needs, breaks, demo):
    d = V / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    w = pathlib.Path(tempfile.mkdtemp(prefix="mkseed."))
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {w}", shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True, cwd=w, check=True)
        for f, old, new in edits:
            p = w / f
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old))
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
        (d / "patch.diff").write_text(diff)
    finally:
        shutil.rmtree(w)
    (d / "demo.sh").write_text(SH)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
