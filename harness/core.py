"""Shared machinery: run Quint, read ITF behaviours, replay them, report.

Every check follows the same route:
  1. `quint run` explores a specification (checking its invariants on every
     visited state) and writes sampled behaviours as ITF traces;
  2. each behaviour is replayed, action by action, into the real pycba, and
     after every action the projection of the real state is compared with the
     state the specification prescribes.
A difference is a VIOLATION; the offending behaviour is kept under
/verif/replays so that it can be re-executed.
"""
from __future__ import annotations

import concurrent.futures as cf
import contextlib
import glob
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PYCBA_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """The check itself failed (not the code under test)."""


class Mismatch(Exception):
    """The real code departs from what the specification prescribes."""


# --------------------------------------------------------------------------- #
#  ITF
# --------------------------------------------------------------------------- #
def unitf(v):
    """ITF value -> plain python."""
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(unitf(x) for x in v["#tup"])
        if "#set" in v:
            return [unitf(x) for x in v["#set"]]
        if "#map" in v:
            return {_key(unitf(k)): unitf(x) for k, x in v["#map"]}
        if set(v) == {"tag", "value"}:
            return (v["tag"], unitf(v["value"]))
        return {k: unitf(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [unitf(x) for x in v]
    return v


def _key(k):
    return tuple(k) if isinstance(k, list) else k


def load_itf(path):
    with open(path) as f:
        d = json.load(f)
    return [unitf(s) for s in d["states"]]


# --------------------------------------------------------------------------- #
#  Quint
# --------------------------------------------------------------------------- #
class SpecRun:
    def __init__(self):
        self.traces = []  # list of (label, states)
        self.states = 0
        self.samples = 0
        self.cmds = []


def merge(runs):
    out = SpecRun()
    for r in runs:
        out.traces += r.traces
        out.states += r.states
        out.samples += r.samples
        out.cmds += r.cmds
    return out


def explore_many(jobs):
    """jobs: list of (spec, kwargs) explored concurrently; returns their runs."""
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(lambda j: explore(j[0], **j[1]), jobs))


def _run_quint(cmd, timeout):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=SPEC)
    return p.returncode, p.stdout + p.stderr


def explore(spec, *, main=None, init="init", step="step", invariants=(), n=40,
            steps=10, seeds=1, seed0=None, timeout=600, params=()):
    """Explore `spec` with `seeds` independent seeds; n behaviours each.

    Returns a SpecRun with all the behaviours.  An invariant violated inside the
    specification is an error of the machinery: the specification is the
    oracle, and it must be self-consistent.
    """
    out = SpecRun()
    work = tempfile.mkdtemp(prefix="quint_")
    seed0 = SEED if seed0 is None else seed0
    jobs = []
    for k in range(seeds):
        pat = os.path.join(work, f"s{k}_{{seq}}.itf.json")
        cmd = ["quint", "run", f"--init={init}", f"--step={step}",
               f"--max-samples={n}", f"--n-traces={n}", f"--max-steps={steps}",
               "--n-threads=1", f"--seed={(seed0 * 1000003 + k * 7919 + 17) % (2**31)}",
               "--mbt", "--verbosity=1", f"--out-itf={pat}"]
        if main:
            cmd.append(f"--main={main}")
        if invariants:
            cmd.append("--invariants")
            cmd += list(invariants)
        # positional file must not be swallowed by the --invariants array
        cmd = cmd[:2] + [spec] + cmd[2:]
        jobs.append((k, cmd))
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda j: (j, _run_quint(j[1], timeout)), jobs))
        for (k, cmd), (rc, txt) in res:
            out.cmds.append(" ".join(cmd))
            if rc != 0:
                raise MachineryError(f"{' '.join(cmd)}\n{txt[-3000:]}")
            files = glob.glob(os.path.join(work, f"s{k}_*.itf.json"))
            if not files:
                raise MachineryError(f"no behaviours written by {' '.join(cmd)}\n{txt[-2000:]}")
            files.sort(key=lambda p: int(re.search(r"_(\d+)\.itf", p).group(1)))
            for i, f in enumerate(files):
                st = load_itf(f)
                out.traces.append((f"{os.path.basename(spec)}:{init}/{step} seed#{k} behaviour#{i}", st))
                out.states += len(st)
            out.samples += n
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def quint_test(spec, match=None, timeout=600, main=None):
    cmd = ["quint", "test", spec, f"--seed={SEED}"]
    if main:
        cmd.append(f"--main={main}")
    if match:
        cmd.append(f"--match={match}")
    rc, txt = _run_quint(cmd, timeout)
    return rc, txt


# --------------------------------------------------------------------------- #
#  numbers
# --------------------------------------------------------------------------- #
def micro(n):
    """micro-unit integer -> the float a user would type."""
    return n / 1_000_000


def pico(n):
    return n / 1e12


def close(a, b, rel, scale):
    return abs(a - b) <= rel * max(scale, abs(b))


def finite(x):
    return isinstance(x, (int, float)) and math.isfinite(x)


# --------------------------------------------------------------------------- #
#  known findings
# --------------------------------------------------------------------------- #
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out.append(d)
    return out


# --------------------------------------------------------------------------- #
#  reporting
# --------------------------------------------------------------------------- #
class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.actions = {}
        self.extra = {}
        self.assumptions = []
        self.cmds = []
        self._findings = known_findings(prop)

    def add_run(self, run):
        self.states += run.states
        self.transitions += run.states - len(run.traces)
        self.cmds += run.cmds[:1]

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def count(self, action, k=1):
        self.actions[action] = self.actions.get(action, 0) + k

    def violation(self, what, replay):
        """record a violation; `what` is a short human text"""
        for f in self._findings:
            if f.get("match") and re.search(f["match"], what):
                if f["id"] not in [k["id"] for k in self.known]:
                    self.known.append(f)
                return
        self.violations.append((what, replay))

    def finish(self):
        wall = time.time() - self.t0
        d = os.path.join(VERIF, "replays")
        lines = []
        if self.violations:
            os.makedirs(d, exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:5]):
                p = os.path.join(d, f"{self.prop}_{i}.json")
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str)
                lines.append(f"  {what}")
                lines.append(f"VIOLATION property={self.prop} replay={p}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(none)"],
            "comparisons": self.comparisons,
            "actions": dict(sorted(self.actions.items())),
            "checker_cmd": self.cmds[0] if self.cmds else "",
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
            "assumptions": self.assumptions,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        print(f"{self.prop}: {self.traces} behaviours replayed, {self.states} model states, "
              f"{self.comparisons} comparisons, {len(self.violations)} violation(s), {wall:.1f}s")
        for l in lines:
            print(l)
        return 1 if self.violations else 0


class _Hang(BaseException):
    pass


def _alarm(*_):
    raise _Hang()


REPLAY_LIMIT_S = 60


def _replay_one(args):
    fn, label, states = args
    stats = {"cmp": 0, "actions": {}, "sample": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(REPLAY_LIMIT_S)
    try:
        # the library prints user messages; they are not the check's output
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
            fn(label, states, stats)
        return (label, None, stats, None)
    except Mismatch as e:
        return (label, str(e), stats, states)
    except _Hang:
        return (label, f"the library did not finish within {REPLAY_LIMIT_S} s", stats, states)
    except MachineryError:
        raise
    except Exception as e:  # the real code blew up where the model prescribes a result
        tb = traceback.format_exc()
        return (label, f"unexpected {type(e).__name__}: {e}\n{tb[-1500:]}", stats, states)
    finally:
        signal.alarm(0)


def replay_all(rep, run, fn, limit=5):
    """Replay every behaviour of `run` with fn(label, states, stats)."""
    rep.add_run(run)
    bad = 0
    ex = cf.ProcessPoolExecutor(NPROC)
    try:
        jobs = [(fn, label, st) for label, st in run.traces]
        for label, err, stats, states in ex.map(_replay_one, jobs, chunksize=2):
            rep.traces += 1
            rep.comparisons += stats["cmp"]
            for a, k in stats["actions"].items():
                rep.count(a, k)
            if stats["sample"] is not None:
                rep.sample(stats["sample"])
            if err is not None:
                bad += 1
                rep.violation(f"{label}: {err}", {"behaviour": states})
                if bad >= limit and len(rep.violations) >= limit:
                    break
    finally:
        if bad >= limit:
            # stop at once; run.py leaves through os._exit, so a pool broken
            # on purpose cannot hold the process up
            for p in list(getattr(ex, "_processes", {}).values()):
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
        else:
            ex.shutdown(wait=True)
    return bad
