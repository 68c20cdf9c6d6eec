from core import TIER, explore, replay_all

Q = TIER == "quick"


def c22(rep):
    import r_section

    run = explore("section.qnt", init="init", step="step", invariants=["tiled", "positive", "nodal"],
                  n=70 if Q else 2500, steps=12, seeds=8, timeout=3000)
    replay_all(rep, run, r_section.replay)


def c23(rep):
    import r_shorthand

    run = explore("shorthand.qnt", init="init", step="step", invariants=["shaped", "carried", "hinges"],
                  n=60 if Q else 1500, steps=20, seeds=8, timeout=3000)
    replay_all(rep, run, r_shorthand.replay)
