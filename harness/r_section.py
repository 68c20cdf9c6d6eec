"""Replay of section.qnt: building variable-section profiles."""
import numpy as np

from core import Mismatch, micro, pico
from model import Cmp


def start(x, near):
    return x * (1 + near * 2e-10)


def definition(s, near=0):
    from pycba import SectionEI  # noqa: F401

    xs = [micro(x) for x in s["xs"]]
    ys = [micro(y) for y in s["ys"]]
    if near and xs and xs[0]:
        xs[0] = start(xs[0], near)
    k, deg = s["kind"], (None if s["deg"] < 0 else s["deg"])
    if k == "rule":
        x0, T = xs[0], xs[-1] - xs[0]
        a, m, e = ys
        b, c = -3 * a + 4 * m - e, 2 * a - 4 * m + 2 * e

        def rule(x):
            t = (np.asarray(x) - x0) / T
            return a + b * t + c * t * t

        return ("poly", [xs[0], xs[-1]], rule, deg)
    if k == "samples":
        return ("poly", xs, ys, deg)
    if k == "const" and len(ys) == 1:
        return (k, xs, ys[0], deg)
    return (k, xs, ys, deg)


def probe(c, what, sec, st):
    bp = np.asarray(sec.breakpoints, dtype=float)
    want = np.array([micro(x) for x in sorted(set(st["bps"]))])
    if len(want):
        c.true(f"{what} breakpoints {bp}, expected {want}", len(bp) == len(want) and np.allclose(bp, want, rtol=0, atol=1e-7))
    c(f"{what} length", sec.length, want[-1] if len(want) else 0.0, 1e-8)
    c.equal(f"{what} is_constant", bool(sec.is_constant), st["flat"])
    if not st["probes"]:
        return
    xs = np.array([micro(p["x"]) for p in st["probes"]])
    vals = np.array([pico(p["lo"]) for p in st["probes"]])
    got = np.asarray(sec(xs), dtype=float)
    for x, g, v in zip(xs, got, vals):
        c(f"{what}({x})", g, v, 2e-6 * v)
    # round-off beyond either end of the profile changes nothing
    for x, v in ((xs[0], vals[0]), (xs[-1], vals[-1])):
        for d in (-1e-9, 1e-9):
            c(f"{what}({x} {d:+g})", sec(float(x + d)), v, 2e-6 * v)
            c.true(f"{what} around {x}", np.allclose(sec(np.array([x + d, x])), v, rtol=2e-6))
    for i in (0, len(xs) // 2, len(xs) - 1):
        g = sec(float(xs[i]))
        c.true(f"{what} at one coordinate is not a number", isinstance(g, float))
        c(f"{what}({xs[i]}) alone", g, vals[i], 2e-6 * vals[i])


def replay(label, states, stats):
    import pycba

    sec, hist, kept, slivers = None, [], [], []
    for st in states:
        a = st["call"]
        name = a["name"]
        stats["actions"][name] = stats["actions"].get(name, 0) + 1
        hist.append(f"{a['kind']} {[micro(x) for x in a['xs']]} {[micro(y) for y in a['ys']]} deg={a['deg']}" if name == "add" else f"{name} {a['kind']}")
        c = Cmp(stats, "; ".join(hist[-7:]) + ": ")
        if name == "init":
            sec, kept, slivers = pycba.SectionEI(), [], []
            hist = hist[-1:]
        elif name == "add":
            d = definition(a, a["near"])
            if a["ok"]:
                r = sec.add_segment(*d)
                c.true("add_segment does not return the profile", r is sec)
                kept.append(definition(a))
                if a["near"]:
                    slivers.append(micro(a["xs"][0]) * (1 + a["near"] * 1e-10))
            else:
                c.stats["cmp"] += 1
                try:
                    sec.add_segment(*d)
                except (ValueError, TypeError, IndexError):
                    pass
                else:
                    raise Mismatch(f"{c.where}this segment should be refused")
        elif name == "attach":
            L = micro(a["xs"][0])
            c.stats["cmp"] += 1
            kw = {"EI": [sec]} if a["kind"] == "EI" else {"EI": [1e3], "GAv": [sec]}
            try:
                pycba.BeamAnalysis(L=[L], R=[-1, 0, -1, 0], **kw)
                ok = True
            except ValueError:
                ok = False
            c.equal(f"profile accepted as {a['kind']} of a span of {L}", ok, a["ok"])
        elif name == "rebuild":
            if a["kind"] == "tuples":
                sec2 = pycba.SectionEI([d if d[3] is not None else d[:3] for d in kept])
            else:
                sec2 = pycba.SectionEI([{"seg_type": d[0], "x": d[1], "ei": d[2], "degree": d[3]} if d[3] is not None
                                        else {"seg_type": d[0], "x": d[1], "ei": d[2]} for d in kept])
            probe(c, "rebuilt profile", sec2, st)
        probe(c, "profile", sec, st)
        # where a segment was said to start a hair away from the running end
        for x in slivers:
            v = sec(x)
            l, r = sec(x - 1e-6), sec(x + 1e-6)
            c.between(f"profile({x!r}) at a join", v, l, r, 1e-4 * max(l, r))


