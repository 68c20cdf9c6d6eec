import functools

from core import TIER, MachineryError, explore, explore_many, merge, replay_all
import r_lifecycle as R

Q = TIER == "quick"


def enumerate_stability(rep, inits, steps):
    runs = explore_many([("stability.qnt", dict(init=i, step="step", invariants=["kinematic"], n=1, steps=steps,
                                                seeds=1, timeout=3000)) for i in inits])
    for r in runs:
        # cut the long enumeration into pieces so that they replay in parallel
        pieces = []
        for label, states in r.traces:
            seen, uniq = set(), []
            for s in states:
                if s["k"] not in seen:
                    seen.add(s["k"])
                    uniq.append(s)
            if uniq[-1]["k"] != uniq[-1]["last"]:
                raise MachineryError(f"enumeration {label} incomplete")
            r.states = len(uniq)
            pieces += [(f"{label}[{j}]", uniq[j:j + 150]) for j in range(0, len(uniq), 150)]
        r.traces = pieces
    replay_all(rep, merge(runs), R.replay_stability)
    rep.extra["exhaustive"] = rep.extra.get("exhaustive", []) + [f"stability.qnt {i}" for i in inits]


def c08(rep):
    rep.level = "model_checking"
    enumerate_stability(rep, ["one3", "two0", "two1"] + [f"big{k}" for k in range(8)], 1500)
    if not Q:
        enumerate_stability(rep, [f"three{k}" for k in range(8)], 2100)
    run = explore("lifecycle.qnt", init="init", step="stepSupports", invariants=["heldSound", "freshAfterSuccess"],
                  n=24 if Q else 400, steps=14, seeds=8, timeout=3000)
    replay_all(rep, run, R.replay)
    rep.assumptions.append("exhaustive over supports {free, rigid, spring} and releases for two spans (and, thorough, {free, rigid} for three)")


def c09(rep):
    run = explore("lifecycle.qnt", init="init", step="step", invariants=["heldSound", "freshAfterSuccess"],
                  n=40 if Q else 500, steps=16, seeds=8, timeout=3000)
    replay_all(rep, run, R.replay)
