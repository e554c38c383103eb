"""seedtest.py ID... [--tests] [--check]: validate planted bugs in scratch copies of /repo.

For each: patch applies; demo exits 0 without and nonzero with it; with --tests the stable tests
still pass with it; with --check the property's quick check is run against a patched /repo (undone
afterwards) and must exit 1 with its VIOLATION line.
"""
import argparse, json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--check", action="store_true")
    a = ap.parse_args()
    ids = a.ids or sorted(p.name for p in (V / "seeded").iterdir() if (p / "patch.diff").exists())
    rc = 0
    for i in ids:
        d = V / "seeded" / i
        meta = json.loads((d / "meta.json").read_text())
        res = []
        w = tempfile.mkdtemp(prefix="seed.")
        try:
            repo = pathlib.Path(w) / "repo"
            subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
            dd = pathlib.Path(w) / "demo"
            shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            env = {"PYTHONPATH": str(repo)}
            r0 = sh(["bash", str(dd / "demo.sh")], repo, env, 300)
            p = sh(["git", "apply", str(d / "patch.diff")], repo)
            if p.returncode:
                res.append("PATCH DOES NOT APPLY " + p.stdout[:200])
            r1 = sh(["bash", str(dd / "demo.sh")], repo, env, 300)
            res.append(f"demo {r0.returncode}->{r1.returncode}" + ("" if r0.returncode == 0 and r1.returncode else " BAD " + (r0.stdout[-600:] if r0.returncode else r1.stdout[-300:])))
            if a.tests:
                j = pathlib.Path(w) / "j.xml"
                o = pathlib.Path(w) / "o.json"
                t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                        "--continue-on-collection-errors", f"--basetemp={w}/t",
                        "--ignore=tests/ota/test_ota_providers.py", "-o", "junit_family=xunit2",
                        f"--junitxml={j}", "tests"], repo, env)
                sh([PY, "/opt/vp/results.py", str(o), f"junit:{j}"], w)
                base = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())
                got = json.loads(o.read_text())
                want = set(base["stable"])
                lost = sorted(want - set(got["passed"]))
                res.append(f"tests {'ok' if not lost else 'LOST ' + str(lost[:4])}")
            if a.check:
                v = pathlib.Path(w) / "verif"
                shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "out", "seeded", "evidence"))
                c = sh(f"python3 check.py {meta['property']} --tier quick", v, {"VERIF_REPO": str(repo)}, timeout=900)
                hit = c.returncode == 1 and f"VIOLATION property={meta['property']} " in c.stdout
                line = next((x for x in c.stdout.splitlines() if "rejected by" in x), "")
                res.append(("CAUGHT " if hit else f"MISSED rc={c.returncode} ") + line.strip()[:200])
        finally:
            shutil.rmtree(w)
        if any(x in r for r in res for x in ("BAD", "LOST", "MISSED", "NOT APPLY")):
            rc = 1
        print(i, meta["property"], "|", " | ".join(res), flush=True)
    return rc
sys.exit(main())
