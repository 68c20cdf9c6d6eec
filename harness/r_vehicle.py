"""Replay of vehicle.qnt: axle layouts through every vehicle operation."""
import numpy as np

from core import Mismatch
from model import Cmp

P = 1e12


def lib(k, p, q):
    from pycba import VehicleLibrary as V

    x = p / P
    return [
        lambda: V.AU.get_abag_bdouble(p), lambda: V.AU.get_abag_semitrailer(p), V.AU.get_example_permit,
        lambda: V.AU.get_m1600(x), lambda: V.AU.get_s1600(x), V.AU.get_a160, V.AU.get_w80,
        lambda: V.AU.get_la_rail(q, x, 150), lambda: V.AU.get_300la(q, x), lambda: V.AU.get_t44(x),
        lambda: V.AU.get_ms18(x), lambda: V.US.get_hl93_truck(x), V.US.get_hl93_tandem, lambda: V.US.get_cooper(x),
        lambda: V.EU.get_lm1(x), lambda: V.EU.get_lm71(x), lambda: V.UK.get_hb(x, q / P), V.CA.get_cl625,
        V.CN.get_jtg_vehicle, V.get_validation_truck,
    ][k]()


def layout(v):
    """(distance behind the front, weight) of every axle, front first"""
    o = np.argsort(np.asarray(v.axle_coords), kind="stable")
    return [(float(v.axle_coords[i]), float(v.axw[i])) for i in o]


def compare(c, what, v, m, placed):
    c.equal(what + " number of axles", (v.NoAxles, len(v.axw), len(v.axle_coords)), (len(m["w"]),) * 3)
    x, want = 0, []
    for i, w in enumerate(m["w"]):
        want.append((x / P, w / P))
        x += m["gap"][i] if i < len(m["gap"]) else 0
    c(what + " length", v.L, sum(m["gap"]) / P, 1e-9)
    W = sum(m["w"]) / P
    c(what + " weight", v.W, W, 1e-9 * max(W, 1))
    # axles at the same place may be listed in either order
    group = {}
    for d, w in layout(v):
        group.setdefault(round(d, 6), []).append(w)
    wg = {}
    for d, w in want:
        wg.setdefault(round(d, 6), []).append(w)
    c.equal(what + " axle positions", sorted(group), sorted(wg))
    for d in wg:
        c.true(f"{what} axle weights at {d}: {group[d]}, expected {wg[d]}",
               np.allclose(sorted(group[d]), sorted(wg[d]), rtol=1e-10, atol=1e-9))
    # and standing on a bridge
    import pycba

    span = 10 + sum(m["gap"]) / P
    bridge = placed(span)
    bridge.set_vehicle(v)
    rows = []
    for pos in (0.37 * span, 7.5):
        bridge.static_vehicle(pos)
        want_on = sum(w for d, w in want if 0 <= pos - d <= span)
        mom = sum(w * (pos - d) for d, w in want if 0 <= pos - d <= span)
        R = bridge.ba.beam_results.R
        c(f"{what} load carried with its front at {pos}", sum(R), want_on, 1e-6 * max(W, 1))
        c(f"{what} far reaction with its front at {pos}", R[1] * span, mom, 1e-6 * max(W, 1) * span)


def replay(label, states, stats):
    import pycba

    regs, src, hist = [], {}, []

    def placed(span):
        return pycba.BridgeAnalysis(pycba.BeamAnalysis([span], 3e4, [-1, 0, -1, 0]))

    for st in states[1:]:
        a = st["call"]
        stats["actions"][a["name"]] = stats["actions"].get(a["name"], 0) + 1
        text = {"construct": f"Vehicle({[x / P for x in a['gap']]}, {[x / P for x in a['w']]})", "standard": f"library #{a['k']} p={a['p']} q={a['q']}",
                "couple": f"make_train({a['a']}, {[x / P for x in a['gap']]})"}.get(a["name"], f"{a['name']}({a['reg']})")
        hist.append(text)
        c = Cmp(stats, "; ".join(hist[-6:]) + ": ")
        try:
            if a["name"] == "construct":
                g, w = np.array([x / P for x in a["gap"]]), np.array([x / P for x in a["w"]])
                v = pycba.Vehicle(g, w)
                src[len(regs)] = (g, w)
                regs.append(v)
            elif a["name"] == "standard":
                v = lib(a["k"], a["p"], a["q"])
                src[len(regs)] = (a["k"], a["p"], a["q"])
                regs.append(v)
            elif a["name"] == "couple":
                regs.append(pycba.make_train([regs[i] for i in a["a"]], np.array([x / P for x in a["gap"]])))
            elif a["name"] == "reverseInPlace":
                c.true("in-place reversal returned something", regs[a["reg"]].reverse() is None)
            elif a["name"] == "reverseCopy":
                regs.append(regs[a["reg"]].reverse(in_place=False))
            else:
                s = src.get(a["reg"])
                if s is None or len(s) == 2:
                    if s is not None:
                        s[0][:] += 1.0
                        s[1][:] *= 3.0
                    twin = regs[a["reg"]].reverse(in_place=False)
                else:
                    twin = lib(*s)
                twin.axw *= 2
                twin.axs += 1
                twin.reverse()
        except ValueError:
            if a["ok"]:
                raise
            continue
        if not a["ok"]:
            raise Mismatch(c.where + "an invalid definition was accepted")
        c.equal("vehicles", len(regs), len(st["regs"]))
        todo = range(len(regs)) if a["name"] == "meddle" else {a["reg"], len(regs) - 1} | set(a["a"])
        for i in todo:
            compare(c, f"vehicle {i}", regs[i], st["regs"][i], placed)
    if stats["sample"] is None and len(hist) > 5:
        stats["sample"] = hist
