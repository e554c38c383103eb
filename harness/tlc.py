"""Running TLC: exhaustive model checking, script generation, trace judging."""
from __future__ import annotations

import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPECS = VERIF / "specs"
JARS = "/opt/veriftools/tla/tla2tools.jar:" + ":".join(
    str(p) for p in pathlib.Path("/opt/veriftools/tla").glob("*.jar") if p.name != "tla2tools.jar"
)


class TLCError(Exception):
    pass


def run_tlc(module, cfg, *, workers=1, env=None, args=(), timeout=600, mem="2g", dfs=False):
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    try:
        cmd = ["java", "-Xss256m", f"-Xmx{mem}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += [
            f"-DTLA-Library={SPECS}", "-cp", JARS, "tlc2.TLC", "-config", str(cfg),
            "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *args, str(module),
        ]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if m is None:
        return 0, 0
    return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))


def model_check(module, cfg=None, *, workers=8, timeout=800, mem="8g", args=(), env=None):
    """Exhaustively explore MC instance; returns dict(states, transitions, ok, out)."""
    cfg = cfg or module
    rc, out = run_tlc(SPECS / f"{module}.tla", SPECS / f"{cfg}.cfg", workers=workers,
                      timeout=timeout, mem=mem, args=("-coverage", "1", *args), env=env)
    distinct, generated = stats(out)
    ok = rc == 0 and "Model checking completed. No error has been found." in out
    if not ok and "is violated" not in out and "Deadlock reached" not in out and \
            "Temporal properties were violated" not in out:
        raise TLCError(f"TLC failed on {module} (rc={rc}):\n{out[-4000:]}")
    untaken = sorted(set(re.findall(r"^<(\w+) line[^>]*>: 0:0", out, re.M)))
    taken = sorted(set(re.findall(r"^<(\w+) line[^>]*>: \d+:[1-9]\d*", out, re.M)))
    untaken = [a for a in untaken if a not in taken]
    return {"states": distinct, "transitions": generated, "ok": ok, "out": out,
            "actions_taken": taken, "actions_never_taken": untaken}


def generate(module, cfg=None, *, simulate=None, depth=None, seed=1, timeout=300, workers=1,
             tag="SCRIPT", env=None):
    """Run a Gen_* module; collect JSON values printed as <<"SCRIPT", "...json...">>."""
    cfg = cfg or module
    args = []
    if simulate:
        args += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
    rc, out = run_tlc(SPECS / f"{module}.tla", SPECS / f"{cfg}.cfg", workers=workers,
                      timeout=timeout, args=args, env=env)
    res = []
    for line in out.splitlines():
        if line.startswith(f'<<"{tag}", "'):
            s = line[len(f'<<"{tag}", '):-2]
            res.append(json.loads(json.loads(s)))
    if rc != 0 or not res:
        raise TLCError(f"script generation {module} failed (rc={rc}):\n{out[-3000:]}")
    d, g = stats(out)
    return res, d, g


def _culprit(out):
    ts = re.findall(r"^/\\ tid = (\d+)", out, re.M)
    ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if not ts or not ls:
        return None, 0
    return int(ts[-1]), int(ls[-1]) - 1


def _judge_batch(module, cfg, traces, timeout, dfs, mem, extra_env, depth=0):
    d = tempfile.mkdtemp(prefix="tlctrace.")
    try:
        f = pathlib.Path(d) / "traces.json"
        f.write_text(json.dumps(traces))
        rc, out = run_tlc(SPECS / f"{module}.tla", SPECS / f"{cfg}.cfg", workers=1,
                          env={"TRACE_FILE": str(f), **(extra_env or {})}, timeout=timeout, dfs=dfs, mem=mem)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    verdicts = {}
    for m in re.finditer(r'<<"VERDICT", (\d+), (\d+), (\d+)>>', out):
        verdicts[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
    if "JUDGED" not in out or len(verdicts) != len(traces):
        if "Parsing or semantic analysis failed" in out or "Could not parse" in out or \
                "OutOfMemory" in out or "StackOverflowError" in out:
            raise TLCError(f"TLC could not judge with {module} (rc={rc}):\n{out[-6000:]}")
        if os.environ.get("VERIF_DEBUG"):
            print(out[-5000:])
        # the specification cannot even be evaluated on one of the traces: that trace is rejected
        t, reached = _culprit(out)
        if t is None or not 1 <= t <= len(traces):
            if len(traces) > 1:
                raise TLCError(f"TLC could not judge with {module} (rc={rc}):\n{out[-6000:]}")
            t, reached = 1, 0
        rest = traces[:t - 1] + traces[t:]
        if not rest:
            return [reached], stats(out)
        if depth >= 6:
            # enough evidence; the others stay unjudged
            r = [len(x) for x in rest]
            return r[:t - 1] + [reached] + r[t - 1:], stats(out)
        r, st = _judge_batch(module, cfg, rest, timeout, dfs, mem, extra_env, depth + 1)
        return r[:t - 1] + [reached] + r[t - 1:], st
    st = stats(out)
    res = []
    for i in range(1, len(traces) + 1):
        reached, ln = verdicts[i]
        res.append(reached)  # number of events matched
        assert ln == len(traces[i - 1])
    return res, st


def judge(module, traces, *, cfg=None, batch=None, timeout=600, jobs=6, dfs=False, mem="3g", env=None):
    """Judge traces (lists of event dicts) with a *_Trace module.

    Returns (list of matched-event counts, states, transitions).  A trace is accepted iff all its
    events were matched.
    """
    cfg = cfg or module
    if not traces:
        return [], 0, 0
    if batch is None:
        batch = max(1, min(400, -(-len(traces) // jobs)))
    parts = [traces[i:i + batch] for i in range(0, len(traces), batch)]
    matched, s, t = [], 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for r, st in ex.map(lambda p: _judge_batch(module, cfg, p, timeout, dfs, mem, env), parts):
            matched += r
            s += st[0]
            t += st[1]
    return matched, s, t
