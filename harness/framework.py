"""The pieces every check shares: driving, judging, evidence, verdicts."""
from __future__ import annotations

import json
import logging
import multiprocessing
import os
import pathlib
import random
import shutil
import signal
import time
import traceback
import zlib

from . import tlc

VERIF = pathlib.Path(__file__).resolve().parent.parent
OUT = VERIF / "out"


class DriverTimeout(BaseException):
    pass


def _alarm(*_):
    raise DriverTimeout()


def _drive_one(args):
    func, script, limit = args
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    events = []
    try:
        r = func(script, events)
        if r is not None:
            events = r
    except DriverTimeout:
        events.append({"ev": "driver_hang"})
    except BaseException as e:  # noqa: BLE001 - total verdicts: a crash is an event no spec accepts
        tb = traceback.extract_tb(e.__traceback__)
        events.append({"ev": "driver_crash", "type": type(e).__name__, "text": str(e)[:300],
                       "at": [f"{f.filename}:{f.lineno}:{f.name}" for f in tb[-6:]]})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return json.loads(json.dumps(events, default=str))


def pool_drive(func, scripts, jobs=8, limit=60):
    if len(scripts) <= 2:
        jobs = 1
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=None) as p:
        return p.map(_drive_one, [(func, s, limit) for s in scripts],
                     chunksize=max(1, min(50, len(scripts) // (jobs * 4) or 1)))


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random(zlib.crc32(pid.encode()) * 1000003 + seed)
        self.t0 = time.monotonic()
        self.states = self.transitions = self.traces = self.events = 0
        self.mc = []
        self.samples = []
        self.violations = []     # list of dict(kind, detail, replay)
        self.known_hits = []
        self.assumptions = []
        self.notes = []
        self.sections = []
        self.distinct = set()
        self.selftest = {"corrupted_traces": 0, "rejected": 0}
        self.known = load_known(pid)
        shutil.rmtree(OUT / "replay" / pid, ignore_errors=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- model level -------------------------------------------------------------------------
    def model_check(self, module, cfg=None, **kw):
        r = tlc.model_check(module, cfg, **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.mc.append({"module": cfg or module, "states": r["states"], "transitions": r["transitions"],
                        "actions_taken": r["actions_taken"],
                        "actions_never_taken": r["actions_never_taken"]})
        if not r["ok"]:
            self._violate("spec", {"module": module, "tlc": r["out"][-6000:]})
        return r

    def generate(self, module, cfg=None, **kw):
        kw.setdefault("seed", self.seed)
        scripts, d, g = tlc.generate(module, cfg, **kw)
        self.states += d
        self.transitions += g
        return scripts

    # ---- implementation level ------------------------------------------------------------------
    def drive(self, func, scripts, **kw):
        return pool_drive(func, scripts, **kw)

    def check_traces(self, name, module, func, scripts, *, cfg=None, drive_kw=None, min_events=1,
                     project=None, **judge_kw):
        """Drive the real code through scripts, let TLC judge the recorded traces."""
        t = time.monotonic()
        traces = self.drive(func, scripts, **(drive_kw or {}))
        t1 = time.monotonic()
        if project:
            traces = [project(x) for x in traces]
        # identical traces need to be judged once only
        keys, uniq, index = {}, [], []
        for tr in traces:
            k = json.dumps(tr, sort_keys=True)
            if k not in keys:
                keys[k] = len(uniq)
                uniq.append(tr)
            index.append(keys[k])
            self.distinct.add(k if len(k) < 200 else hash(k))
        # nothing can be said about a trace whose driver failed before its first event: rejected
        some = [u for u, tr in enumerate(uniq) if tr and not str(tr[0].get("ev")).startswith("driver_")]
        matched, s, g = [0] * len(uniq), 0, 0
        if some:
            m, s, g = tlc.judge(module, [uniq[u] for u in some], cfg=cfg, **judge_kw)
            for u, k in zip(some, m):
                matched[u] = k
        t2 = time.monotonic()
        self.states += s
        self.transitions += g
        self.traces += len(uniq)
        self.events += sum(len(x) for x in uniq)
        bad = 0
        seen = set()
        for i, tr in enumerate(traces):
            u = index[i]
            if matched[u] < len(tr):
                if u in seen:
                    continue
                seen.add(u)
                bad += 1
                k = self._known(name, scripts[i], tr, matched[u])
                if k is not None:
                    if k not in self.known_hits:
                        self.known_hits.append(k)
                    continue
                if bad <= 20:
                    self._violate("trace", {"section": name, "module": module, "cfg": cfg or module,
                                            "driver": f"{func.__module__}:{func.__qualname__}",
                                            "script": scripts[i], "events": tr,
                                            "matched_events": matched[u],
                                            "first_unexplained_event": tr[matched[u]]})
                else:
                    self.violations.append(None)
        # demonstrate the binding: corrupted copies of accepted traces have to be rejected
        good = [tr for u, tr in enumerate(uniq) if matched[u] == len(tr) and len(tr) >= 2]
        self._selftest(module, cfg, good, judge_kw)
        if uniq and len(self.samples) < 6:
            j = max(range(len(uniq)), key=lambda q: min(len(uniq[q]), 30))
            self.samples.append({"section": name, "trace": uniq[j][:30]})
        self.sections.append({"name": name, "judge": module, "scripts": len(scripts), "distinct_traces": len(uniq),
                              "events": sum(len(x) for x in uniq), "rejected": bad,
                              "drive_s": round(t1 - t, 1), "judge_s": round(t2 - t1, 1)})
        return traces, [matched[u] for u in index]

    def _selftest(self, module, cfg, good, judge_kw):
        if not good:
            return
        r = random.Random(5)
        muts = []
        for _ in range(6):
            tr = json.loads(json.dumps(r.choice(good)))
            i = r.randrange(len(tr))
            tr[i]["ev"] = tr[i]["ev"] + "_corrupted" if r.random() < 0.3 else tr[i]["ev"]
            if not tr[i]["ev"].endswith("_corrupted"):
                ints = _int_paths(tr[i])
                if ints:
                    path = r.choice(ints)
                    _bump(tr[i], path)
                else:
                    del tr[i]
                    if not tr:
                        continue
            muts.append(tr)
        kw = {k: v for k, v in judge_kw.items() if k in ("env", "dfs", "mem", "timeout")}
        try:
            m, _, _ = tlc.judge(module, muts, cfg=cfg, **kw)
            self.selftest["corrupted_traces"] += len(muts)
            self.selftest["rejected"] += sum(1 for a, b in zip(m, muts) if a < len(b))
        except tlc.TLCError:
            # a corruption that makes the specification's expressions ill-typed is a rejection too
            self.selftest["corrupted_traces"] += len(muts)
            self.selftest["rejected"] += len(muts)

    def _known(self, name, script, trace, matched):
        for k in self.known:
            if k.matches(name, script, trace, matched):
                return k
        return None

    def fail(self, kind, detail):
        self._violate(kind, detail)

    def _violate(self, kind, detail):
        d = OUT / "replay" / self.pid
        d.mkdir(parents=True, exist_ok=True)
        path = d / f"{len(self.violations) + 1}.json"
        path.write_text(json.dumps({"property": self.pid, "kind": kind, "seed": self.seed,
                                    "tier": self.tier, **detail}, indent=1, default=str))
        self.violations.append({"kind": kind, "path": str(path), "detail": detail})

    # ---- end -------------------------------------------------------------------------------------
    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "trace_events": self.events,
                "model_instances": self.mc,
                "sections": self.sections,
                "binding_selftest": self.selftest,
                "samples": self.samples or [{"note": "no traces"}],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.t0, 2),
            "violations": len(self.violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {k.text}")
        shown = 0
        for v in self.violations:
            if v is None:
                continue
            if shown < 10:
                d = v["detail"]
                if v["kind"] == "trace":
                    print(f"  rejected by {d['module']} [{d['section']}]: {d['matched_events']} of "
                          f"{len(d['events'])} events explained; no action explains "
                          f"{json.dumps(d['first_unexplained_event'])[:400]}")
                else:
                    print(f"  {v['kind']}: {str(d)[:600]}")
                print(f"VIOLATION property={self.pid} replay={v['path']}")
                shown += 1
        total = len(self.violations)
        for s in self.sections:
            print("  ", s)
        print(f"{self.pid}: {'FAILED' if total else 'held'}; {self.traces} traces judged, "
              f"{self.states} states, {ev['wall_s']} s")
        return 1 if total else 0


def _int_paths(o, pre=()):
    if isinstance(o, bool):
        return [pre]
    if isinstance(o, int):
        return [pre]
    if isinstance(o, dict):
        return [p for k, v in o.items() for p in _int_paths(v, pre + (k,))]
    if isinstance(o, list):
        return [p for k, v in enumerate(o) for p in _int_paths(v, pre + (k,))]
    return []


def _bump(o, path):
    for k in path[:-1]:
        o = o[k]
    v = o[path[-1]]
    o[path[-1]] = (not v) if isinstance(v, bool) else v + 1


class Known:
    """A recorded genuine finding: recognised by the exact failing situation only."""

    def __init__(self, d):
        self.d = d
        self.text = d["text"]

    def matches(self, name, script, trace, matched):
        m = self.d["match"]
        if m.get("section") not in (None, name):
            return False
        ev = trace[matched] if matched < len(trace) else {}
        for k, v in m.get("event", {}).items():
            if ev.get(k) != v:
                return False
        if "script" in m and m["script"] != script:
            return False
        return True


def load_known(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    d = json.loads(p.read_text())
    return [Known(k) for k in d.get("known", []) if k["property"] == pid]
