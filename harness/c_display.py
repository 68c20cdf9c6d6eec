from core import TIER, explore, replay_all

Q = TIER == "quick"


def c25(rep):
    import r_schematic

    run = explore("schematic.qnt", init="init", step="step",
                  invariants=["statics", "symbols", "lengthways", "once"],
                  n=30 if Q else 600, steps=24, seeds=8, timeout=3000)
    replay_all(rep, run, r_schematic.replay)


def c24(rep):
    import r_display

    run = explore("display.qnt", init="init", step="step",
                  invariants=["settled", "named", "curves", "carried", "shaded", "draped"],
                  n=6 if Q else 120, steps=40, seeds=8, timeout=3000)
    replay_all(rep, run, r_display.replay)
