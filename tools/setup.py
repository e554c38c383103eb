"""setup_cmd: nothing to compile; checks that the tools and every specification parse."""
import pathlib, subprocess, sys, tempfile, os, shutil
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
d = tempfile.mkdtemp(prefix="verifsetup.")
f = os.path.join(d, "traces.json")
open(f, "w").write('[[{"ev":"x"}]]')
def sany(p):
    jars = ":".join(str(x) for x in pathlib.Path("/opt/veriftools/tla").glob("*.jar"))
    r = subprocess.run(["java", f"-DTLA-Library={V/'specs'}", "-cp", jars, "tla2sany.SANY", str(p)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    bad = r.returncode != 0 or "error" in r.stdout.lower()
    return p.name, bad, r.stdout
rc = 0
with ThreadPoolExecutor(8) as ex:
    for n, bad, o in ex.map(sany, sorted((V / "specs").glob("*.tla"))):
        if bad:
            print("does not parse:", n, o[-800:]); rc = 1
shutil.rmtree(d)
(V / "out").mkdir(exist_ok=True)
print("setup", "failed" if rc else "ok")
sys.exit(rc)
