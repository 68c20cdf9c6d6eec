"""Checks C01-C07: elastic.qnt behaviours replayed into BeamAnalysis."""
import functools

from core import TIER, explore, replay_all
import r_elastic

Q = TIER == "quick"
SPEC = "elastic.qnt"


def _run(rep, plan):
    """plan: (init, step, n, steps, seeds, thorough factor, replay kwargs)"""
    for init, step, n, steps, seeds, factor, kw in plan:
        run = explore(SPEC, init=init, step=step, invariants=[] if init == "initFoundation" else ["equilibrium"], n=n if Q else n * factor,
                      steps=steps, seeds=seeds, timeout=3000)
        replay_all(rep, run, functools.partial(r_elastic.replay, **kw))
    rep.assumptions += [
        "reference values: method of initial parameters in 40-digit fixed point (spec/mechanics.qnt)",
        "structures have 1-4 spans (prismatic ones also 5-12); magnitudes drawn from the sets listed in spec/elastic.qnt",
    ]


def c01(rep):
    _run(rep, [("initPrismatic", "step", 34, 8, 8, 8, dict(aspects=("reactions", "nodes"))),
               ("initLong", "step", 2, 6, 8, 16, dict(aspects=("reactions", "nodes")))])


def c02(rep):
    _run(rep, [("initPrismatic", "step", 32, 8, 8, 8, dict(aspects=("diagrams",), densities=True)),
               ("initLong", "step", 2, 6, 8, 16, dict(aspects=("diagrams",)))])


def c03(rep):
    _run(rep, [("initPrismatic", "step", 32, 8, 8, 8, dict(aspects=("nodes", "deflections", "continuity"))),
               ("initLong", "step", 2, 6, 8, 16, dict(aspects=("nodes", "deflections", "continuity")))])


def c05(rep):
    _run(rep, [("initNonPrismatic", "step", 24, 7, 8, 8, dict(rel=1e-3))])


def c06(rep):
    _run(rep, [("initShear", "step", 24, 7, 8, 8, dict(rel=2e-3))])


def c07(rep):
    _run(rep, [("initFoundation", "stepFoundation", 16, 6, 8, 8, dict(rel=1e-3, relD=5e-3))])


def c04(rep):
    import r_superpose

    for init, n, kw in (("initA", 10, dict()), ("initB", 3, dict(rel=1e-3)), ("initC", 3, dict(rel=2e-3))):
        run = explore("superpose.qnt", init=init, step="advance", invariants=["superposition", "equilibrium"],
                      n=n if Q else n * 10, steps=7, seeds=8, timeout=3000)
        replay_all(rep, run, functools.partial(r_superpose.replay, **kw))
    rep.assumptions.append("list operations limited to those of spec/superpose.qnt")
