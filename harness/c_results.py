import functools

from core import TIER, explore, replay_all

Q = TIER == "quick"


def c11(rep):
    import r_envelope

    run = explore("envelope.qnt", init="init", step="step", invariants=["exact", "coincident", "ordered"],
                  n=60 if Q else 1500, steps=22, seeds=8, timeout=3000)
    replay_all(rep, run, r_envelope.replay)


def c10(rep):
    import r_queries

    run = explore("queries.qnt", init="init", step="step", invariants=["jumpsOnly"],
                  n=50 if Q else 900, steps=6, seeds=8, timeout=3000)
    replay_all(rep, run, r_queries.replay)
