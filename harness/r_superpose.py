"""Replay of superpose.qnt: the load-matrix algebra and the analyses of its results."""
from copy import deepcopy

from core import Mismatch, micro
from model import Cmp, lm_of, make_analysis
from r_elastic import beam_repr, compare


def same_rows(c, what, got, want):
    c.equal(f"{what}: number of rows", len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        c.equal(f"{what} row {k}: length of {g} vs {w}", len(g), len(w))
        for x, y in zip(g, w):
            c.true(f"{what} row {k}: got {g}, expected {w}", abs(x - y) <= 1e-9 * max(1.0, abs(y)))


def replay(label, states, stats, rel=1e-7, relD=4e-3, npts=240):
    import pycba
    from pycba.load import add_LM, factor_LM

    cur = []
    for st in states:
        op = st["op"]
        stats["actions"][op["name"]] = stats["actions"].get(op["name"], 0) + 1
        want = lm_of(st["lm"])
        c = Cmp(stats, f"{beam_repr(st)} {op['name']} -> loads {want}: ")
        if op["name"] == "merge":
            extra = lm_of(op["rows"])
            a, b = deepcopy(cur), deepcopy(extra)
            new = add_LM(cur, extra)
            c.true("add_LM altered its arguments", cur == a and extra == b)
            same_rows(c, "add_LM", new, want)
            n0 = len(new)
            new.append([1, 1, 1.0])
            c.true("add_LM returned one of its arguments", cur == a and extra == b)
            new = new[:n0]
        elif op["name"] == "factor":
            a = deepcopy(cur)
            g = op["a"] / 1000
            new = factor_LM(cur, g)
            c.true("factor_LM altered its argument", cur == a)
            same_rows(c, f"factor_LM by {g}", new, want)
        else:
            new = want
        cur = new
        ba = make_analysis(st["beam"], [])
        if not st["sol"]["ok"]:
            return
        before = deepcopy(cur)
        ba.set_loads(cur)
        try:
            ba.analyze(npts)
        except ValueError:
            from r_elastic import conflicting_spring

            if conflicting_spring(st):
                continue
            raise
        c.true("analysis altered the load matrix", cur == before)
        compare(ba, st, c, npts, rel, relD)
    if stats["sample"] is None and len(states) > 3:
        stats["sample"] = {"beam": beam_repr(states[0]), "operations": [s["op"]["name"] for s in states[1:]],
                           "final loads": lm_of(states[-1]["lm"])}
