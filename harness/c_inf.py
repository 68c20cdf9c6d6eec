from core import TIER, explore, replay_all

Q = TIER == "quick"


def c14(rep):
    import r_inf

    run = explore("inf_lines.qnt", init="init", step="step", invariants=["superposes"],
                  n=24 if Q else 500, steps=8, seeds=8, timeout=3000)
    replay_all(rep, run, r_inf.replay)
