from functools import partial

from core import TIER, explore, replay_all

Q = TIER == "quick"
THEOREMS = ["safe", "unsafe", "balanced", "elasticStands"]


def c18(rep):
    import r_plastic

    run = explore("plastic.qnt", main="plastic", init="initStatic", step="stepStatic", invariants=THEOREMS,
                  n=16 if Q else 150, steps=10 if Q else 14, seeds=8, timeout=3000)
    replay_all(rep, run, partial(r_plastic.replay, only=("analyse",)))
    rep.assumptions.append("loads reach the mesh nodes by the lever rule, as documented; strain hardening (q > 0): equilibrium and first yield only")


def c26(rep):
    import r_plastic

    run = explore("plastic.qnt", main="plastic", init="init", step="stepMoving", invariants=THEOREMS,
                  n=9 if Q else 90, steps=5 if Q else 8, seeds=8, timeout=3000)
    replay_all(rep, run, partial(r_plastic.replay, only=("drive",)))
    rep.assumptions.append("positions at which the limit load factor is within 5e-5 of 1 decide nothing")
