import functools

from core import TIER, explore, replay_all

Q = TIER == "quick"
INV = ["uniqueNames", "jointIsSum", "selectionsBound"]


def c15(rep):
    import r_load_cases

    run = explore("load_cases.qnt", init="init", step="step", invariants=INV,
                  n=24 if Q else 500, steps=14, seeds=8, timeout=3000)
    replay_all(rep, run, functools.partial(r_load_cases.replay, combos=False))


def c16(rep):
    import r_load_cases

    # other behaviours of the same machine, shorter between examinations
    run = explore("load_cases.qnt", init="init", step="stepExamine", invariants=INV,
                  n=14 if Q else 500, steps=12, seeds=8, seed0=4711, timeout=3000)
    replay_all(rep, run, r_load_cases.replay)


def c17(rep):
    import r_pattern

    run = explore("patternload.qnt", init="init", step="step", invariants=["schemeComplete", "ordered"],
                  n=20 if Q else 500, steps=9, seeds=8, timeout=3000)
    replay_all(rep, run, r_pattern.replay)
