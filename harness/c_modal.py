from core import TIER, explore, replay_all

Q = TIER == "quick"


def c19(rep):
    import r_modal

    run = explore("modal.qnt", main="modal", init="init", step="step", invariants=["ascending", "counted"],
                  n=10 if Q else 90, steps=5, seeds=8, timeout=3000)
    replay_all(rep, run, r_modal.replay)
