from core import TIER, explore, replay_all

Q = TIER == "quick"


def c20(rep):
    import r_tendon

    run = explore("tendon.qnt", main="tendon", init="init", step="step", invariants=["linear", "determinate"],
                  n=40 if Q else 400, steps=14, seeds=8, timeout=3000)
    replay_all(rep, run, r_tendon.replay)
    rep.assumptions.append("slope changes over a rigid support are reacted by it and form no load, as documented")
