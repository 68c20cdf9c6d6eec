"""Replay of elastic.qnt: structures and loading histories vs BeamAnalysis."""
from __future__ import annotations

import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, beam_args, lm_of, make_analysis, reactions_of

FIX = 10**40


def fx(n):
    return n / FIX


def scales(st):
    """representative magnitudes of force, moment, rotation, deflection"""
    s = st["sol"]
    F = [1.0] + [abs(fx(x)) for x in s["react"][0::2]]
    M = [1.0] + [abs(fx(x)) for x in s["react"][1::2]]
    T = [1e-6] + [abs(fx(x)) for x in s["node"][1::2]]
    D = [1e-6] + [abs(fx(x)) for x in s["node"][0::2]]
    for o in st["obs"]:
        F += [abs(pico(o["ql"])), abs(pico(o["qh"]))]
        M += [abs(pico(o["ml"])), abs(pico(o["mh"]))]
        T.append(abs(pico(o["t"])))
        D.append(abs(pico(o["v"])))
    Lmin = min(micro(sp["L"]) for sp in st["beam"]["spans"])
    return max(max(F), max(M) / Lmin), max(M), max(T), max(D)


def quadrature_tol(st, i, npts, relD, T, D, M, F):
    """The library integrates curvature with the trapezoidal rule on a grid of
    npts intervals; where the curvature jumps (couples, rigidity steps) the rule
    is only first-order accurate.  The bound below is half an interval times
    the size of the jumps, doubled for the two integrations."""
    sp = st["beam"]["spans"][i]
    L = micro(sp["L"])
    h = L / npts
    eimin = min(micro(y) for p in sp["ei"] for y in p["ys"])
    jump = sum(abs(micro(r[2])) for r in st["lm"] if r[0] == i + 1 and r[1] == 4) / eimin
    if len(sp["ei"]) > 1:
        jump += (len(sp["ei"]) - 1) * M / eimin
    # and second-order accurate where the slope of the curvature jumps
    t = jump * h + F / eimin * h * h / 6
    if sp["ga"]:
        # likewise the shear strain jumps at point loads and steps of GA
        gamin = min(micro(y) for p in sp["ga"] for y in p["ys"])
        gj = sum(abs(micro(r[2])) for r in st["lm"] if r[0] == i + 1 and r[1] == 2) / gamin
        gj += (len(sp["ga"]) - 1) * F / gamin
        t += gj * h / L
        # where shear dominates, small errors of the fixed-end forces show up
        # in the (much smaller) bending rotation
        t += relD / 3 * F / gamin
    return relD * T + t, relD * D + t * L


# length and force of the unit systems of elastic.qnt, in m and kN
UNITS = [(1, 1), (1000, 1000), (1000, 1), (1, 1000), (1, 0.001), (39.37007874015748, 0.22480894309971047)]


def in_units(b, lm, u):
    """the same beam and loads written in other units"""
    f, p = UNITS[u]

    def pieces(ps, k):
        return [{**q, "x0": f * q["x0"], "x1": f * q["x1"], "xs": [f * x for x in q["xs"]], "ys": [k * y for y in q["ys"]]}
                for q in ps]

    def load(r):
        i, k, a = r[0], r[1], list(r[2:])
        how = {1: (p / f,), 2: (p, f), 3: (p / f, f, f), 4: (p * f, f), 5: (p / f, p / f, f, f), 6: (1 / f, f**-2, f**-3)}[k]
        return [i, k] + [x * y for x, y in zip(a, how)]

    return {
        **b,
        "spans": [{**s, "L": f * s["L"], "ei": pieces(s["ei"], p * f * f), "ga": pieces(s["ga"], p),
                   "kf": s["kf"] * p / (f * f)} for s in b["spans"]],
        "rest": [r * (p * f if i % 2 else p / f) if r > 0 else r for i, r in enumerate(b["rest"])],
        "disp": [d * (1 if i % 2 else f) for i, d in enumerate(b["disp"])],
    }, [load(r) for r in lm]


class Converted:
    """results obtained in other units, read in m and kN"""

    class Line:
        pass

    def __init__(self, br, b, u):
        f, p = UNITS[u]
        n = len(b["rest"])
        per = [p * f if d % 2 else p for d in range(n)]
        self.R = [g / k for g, k in zip(br.R, [per[d] for d in range(n) if b["rest"][d] < 0])] if len(br.R) == sum(
            r < 0 for r in b["rest"]) else br.R
        self.Rs = [g / k for g, k in zip(br.Rs, [per[d] for d in range(n) if b["rest"][d] > 0])] if len(br.Rs) == sum(
            r > 0 for r in b["rest"]) else br.Rs
        self.D = [g / (1 if d % 2 else f) for d, g in enumerate(br.D)]
        self.vRes = []
        for r in br.vRes:
            q = Converted.Line()
            q.x, q.M, q.V, q.R, q.D = r.x / f, r.M / (p * f), r.V / p, r.R, r.D / f
            self.vRes.append(q)


def bend(b, M):
    """the turn a moment M gives the most flexible member"""
    return max(M * micro(s["L"]) / min(micro(y) for p in s["ei"] for y in p["ys"]) for s in b["spans"])


def compare(ba, st, c, npts, rel=1e-7, relD=3e-3, aspects=("reactions", "nodes", "diagrams", "deflections"), br=None):
    """compare a solved BeamAnalysis with the published model state"""
    br = br or ba.beam_results
    F, M, T, D = scales(st)
    b = st["beam"]
    if "reactions" in aspects:
        R, Rs = reactions_of(b, st["sol"]["react"])
        c.equal("number of rigid reactions", len(br.R), len(R))
        c.equal("number of spring reactions", len(br.Rs), len(Rs))
        for k, (g, w) in enumerate(zip(br.R, R)):
            c(f"reaction R[{k}]", g, fx(w), rel * max(F, M))
        # a spring whose displacement is imposed reports only its own force
        for k, (g, w) in enumerate(zip(br.Rs, Rs)):
            c(f"spring force Rs[{k}]", g, fx(w), rel * max(F, M))
    if "nodes" in aspects:
        sc = max(D, T) + bend(b, M) / 100
        for k, (g, w) in enumerate(zip(br.D, st["sol"]["node"])):
            c(f"nodal displacement d[{k}]", g, fx(w), rel * sc * 10)
    for o in st["obs"]:
        r = br.vRes[o["i"]]
        L = micro(b["spans"][o["i"]]["L"])
        tolT, tolD = quadrature_tol(st, o["i"], npts, relD, T, D, M, F)
        # fixed-end forces of members without closed form are good to `rel`
        tolT, tolD = tolT + rel * bend(b, M) / 4, tolD + rel * bend(b, M) * L / 8
        xl = r.x[1:-1] - r.x[0]
        j = 1 + int(np.argmin(np.abs(xl - micro(o["x"]))))
        if abs(r.x[j] - r.x[0] - micro(o["x"])) > 1e-9 * L:
            continue
        w = f"member {o['i'] + 1} x={micro(o['x']):g} "
        if "diagrams" in aspects:
            # at the very ends, only the inner side is reported
            end0, end1 = o["x"] == 0, o["x"] == b["spans"][o["i"]]["L"]
            c.between(w + "M", r.M[j], pico(o["ml"]), pico(o["mh"]), rel * M)
            c.between(w + "V", r.V[j], pico(o["ql"]), pico(o["qh"]), rel * F)
        if "deflections" in aspects:
            c(w + "rotation", r.R[j], pico(o["t"]), tolT)
            c(w + "deflection", r.D[j], pico(o["v"]), tolD)


def compare_loads(br, st, c, rel):
    """the results a load itself reports along a simply supported member (of unit
    rigidity), with the end moments' own: together with the chord they are the member"""
    from pycba.load import LoadMaMb, parse_LM

    F, M, T, D = scales(st)
    b = st["beam"]
    loads = parse_LM([list(r) for r in lm_of(st["lm"])])
    for o in st["obs"]:
        i, x = o["i"], micro(o["x"])
        sp = b["spans"][i]
        L = micro(sp["L"])
        mine = [r for r in st["lm"] if r[0] == i + 1]
        if sp["ga"] or sp["kf"] or len(sp["ei"]) > 1 or len(set(sp["ei"][0]["ys"])) > 1 or not 0 < o["x"] < sp["L"]:
            continue
        if any(r[1] == 6 or (r[1] == 4 and r[3] in (0, sp["L"])) for r in mine):
            continue
        EI = micro(sp["ei"][0]["ys"][0])
        r = br.vRes[i]
        xs = np.array([0.0, x, L])
        parts = [LoadMaMb(i_span=i, Ma=-r.M[1], Mb=r.M[-2])] + [l for l in loads if l.i_span == i]
        parts = [l.get_mbr_results(xs, L) for l in parts]
        d0, d1 = fx(st["sol"]["node"][2 * i]), fx(st["sol"]["node"][2 * i + 2])
        w = f"sum of the loads' own results of member {i + 1} at x={x:g}: "
        c.between(w + "M", sum(p.M[1] for p in parts), pico(o["ml"]), pico(o["mh"]), 10 * rel * M)
        size = max(T, D / L, M * L / EI)
        c(w + "rotation", (d1 - d0) / L + sum(p.R[1] for p in parts) / EI, pico(o["t"]), 10 * rel * size)
        c(w + "deflection", d0 + (d1 - d0) * x / L + sum(p.D[1] for p in parts) / EI, pico(o["v"]), 10 * rel * size * L)


DENSITIES = (20, 40, 100, 160, 260)


def conflicting_spring(st):
    """a spring DOF with an imposed displacement next to a loaded member: the
    library documents that it refuses such a model"""
    b = st["beam"]
    for d in range(len(b["rest"])):
        if b["rest"][d] > 0 and b["dset"][d]:
            if any(r[0] - 1 in (d // 2 - 1, d // 2) for r in st["lm"]):
                return True
    return False


def replay(label, states, stats, npts=200, rel=1e-7, relD=3e-3, densities=False,
           aspects=("reactions", "nodes", "diagrams", "deflections")):
    for k, st in enumerate(states):
        act = st["mbt::actionTaken"] or "step"
        stats["actions"][act] = stats["actions"].get(act, 0) + 1
        c = Cmp(stats, f"{beam_repr(st)} after load(s) {lm_of(st['lm'])}" + (f" (given in units {UNITS[st['units']]})" if st["units"] else "") + ": ")
        if densities:
            npts = DENSITIES[(len(st["lm"]) + len(label)) % len(DENSITIES)]
        ba = make_analysis(*(in_units(st["beam"], st["lm"], st["units"]) if st["units"] else (st["beam"], st["lm"])))
        if not st["sol"]["ok"]:
            c.equal("is_stable()", bool(ba.is_stable()), False)
            try:
                ba.analyze(npts)
            except ValueError:
                continue
            raise Mismatch(c.where + "a mechanism was analysed without complaint")
        c.equal("is_stable()", bool(ba.is_stable()), True)
        try:
            ba.analyze(npts)
        except ValueError:
            if conflicting_spring(st):
                continue
            raise
        br = Converted(ba.beam_results, st["beam"], st["units"]) if st["units"] else ba.beam_results
        compare(ba, st, c, npts, rel, relD, aspects, br)
        if "deflections" in aspects:
            compare_loads(br, st, c, rel)
    if stats["sample"] is None and len(states[-1]["lm"]) > 1:
        stats["sample"] = {"beam": beam_repr(states[-1]), "loads": lm_of(states[-1]["lm"]), "stable": states[-1]["sol"]["ok"]}


def beam_repr(st):
    kw = beam_args(st["beam"])
    return {k: repr(v) for k, v in kw.items()}
