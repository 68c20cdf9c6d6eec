from core import TIER, explore, replay_all

Q = TIER == "quick"


def c21(rep):
    import r_vehicle

    run = explore("vehicle.qnt", init="init", step="step", invariants=["consistent", "involution", "trainWeight"],
                  n=60 if Q else 1500, steps=14, seeds=8, timeout=3000)
    replay_all(rep, run, r_vehicle.replay)
