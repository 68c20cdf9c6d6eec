"""Replay of tendon.qnt: tendon profiles, their equivalent loads and the analysis."""
import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, beam_args
from r_elastic import compare


def profile(p):
    from pycba import prestress as ps

    e, at, cl, cr = [micro(x) for x in p["e"]], [micro(x) for x in p["at"]], micro(p["cl"]), micro(p["cr"])
    kw = dict(c_left=cl, c_right=cr) if cl or cr else {}
    if p["kind"] == "none":
        return None
    if p["kind"] == "compound":
        return ps.CompoundParabola(*e, *at)
    return {"parabola": ps.Parabola, "harp": ps.Harp, "double": ps.DoubleHarp}[p["kind"]](*e, *at, **kw)


def check_drawing(c, model, force, profs, st):
    import matplotlib.pyplot as plt
    from pycba.prestress import plot_tendon

    fig, axs = plot_tendon(model, force, profs)
    try:
        want = {}
        offs = np.concatenate([[0], np.cumsum([micro(s["L"]) for s in st["beam"]["spans"]])])
        for d in st["drape"]:
            want.setdefault(d["i"], []).append((offs[d["i"]] + micro(d["x"]), pico(d["e"])))
        curves = [ln for ln in axs[1].lines if len(ln.get_xdata()) > 10]
        c.equal("tendon curves drawn", len(curves), sum(p is not None for p in profs))
        for i, ln in zip([i for i, p in enumerate(profs) if p is not None], curves):
            x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
            pts = np.array(want[i])
            c("start of the drawn tendon", x[0], pts[0, 0], 1e-9 * offs[-1])
            c("finish of the drawn tendon", x[-1], pts[-1, 0], 1e-9 * offs[-1])
            h = float(np.max(np.diff(x)))
            span = pts[-1, 0] - pts[0, 0]
            # straight between the drawn points: a kink is missed by half an interval of its slopes
            slope = float(np.max(np.abs(np.diff(y)))) / h + 1e-9
            for px, pe in pts:
                c(f"drawn eccentricity in span {i + 1} at {px:g}", np.interp(px, x, y), pe, slope * h + 1e-6 * span)
                j = int(np.argmin(np.abs(x - px)))
                if abs(x[j] - px) < 1e-9 * span:
                    c(f"drawn eccentricity in span {i + 1} at {px:g}", y[j], pe, 1e-9 * span)
    finally:
        plt.close("all")


def replay(label, states, stats):
    import pycba
    from pycba.prestress import equivalent_loads

    drawn = 0
    kw = beam_args(states[0]["beam"])
    for st in states[1:]:
        a = st["call"]
        name = a["name"]
        stats["actions"][name] = stats["actions"].get(name, 0) + 1
        if name in ("lay", "stress"):
            continue
        profs = [profile(p) for p in st["prof"]]
        F = [micro(f) for f in st["force"]]
        force = F[0] if a["scalar"] else F
        if name == "miscount":
            profs, force = (profs[1:], force) if a["n"] == 0 else (profs, list(F) + [F[0]])
        ba = pycba.BeamAnalysis(**kw)
        c = Cmp(stats, f"beam {({k: v for k, v in kw.items()})}, force {force}, profiles {profs}: ")
        model = ba if len(st["prof"]) % 2 else ba.beam
        before = [[list(r) for r in ba.beam.loads], list(ba.beam.restraints), list(ba.beam.mbr_lengths)]
        try:
            LM = equivalent_loads(model, force, profs)
        except (ValueError, NotImplementedError) as e:
            c.true(f"refused ({type(e).__name__}: {e})", not a["ok"])
            continue
        c.true("should be refused", a["ok"])
        c.equal("the beam itself", [[list(r) for r in ba.beam.loads], list(ba.beam.restraints), list(ba.beam.mbr_lengths)], before)
        if all(p is None for p in profs):
            c.equal("loads without any tendon", len(LM), 0)
        c.where += f"loads {LM}: "
        if not st["sol"]["ok"]:
            continue
        ba.set_loads(LM)
        ba.analyze(200)
        compare(ba, st, c, 200, rel=5e-6, relD=5e-3)
        if drawn < 1 and any(profs):
            drawn += 1
            check_drawing(c, model, force, profs, st)
        if stats["sample"] is None:
            stats["sample"] = {"profiles": [repr(p) for p in profs], "force": force, "loads": str(LM)[:300]}
