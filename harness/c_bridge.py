import functools

from core import TIER, explore, replay_all

Q = TIER == "quick"
INV = ["weightCarried", "rowsInside", "laneCovers", "ordered"]


def c12(rep):
    import r_bridge

    run = explore("bridge.qnt", init="init", step="stepVehicle", invariants=INV,
                  n=40 if Q else 900, steps=6, seeds=8, timeout=3000)
    replay_all(rep, run, functools.partial(r_bridge.replay, aspects=("positions",)))


def c13(rep):
    import r_bridge

    run = explore("bridge.qnt", init="init", step="step", invariants=INV,
                  n=36 if Q else 800, steps=6, seeds=8, timeout=3000, seed0=77 + rep_seed())
    replay_all(rep, run, r_bridge.replay)


def rep_seed():
    from core import SEED

    return SEED
