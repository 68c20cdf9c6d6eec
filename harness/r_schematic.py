"""Replay of schematic.qnt: the drawing of a beam and its loads, on screen and
as TikZ source, read back glyph by glyph."""
import copy
import os
import re
import shutil
import tempfile

import numpy as np

from core import Mismatch, micro
from model import Cmp, beam_args, lm_of
from r_units import override, spec_units, system

NUM = re.compile(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?")


def near(a, b, L):
    return abs(a - b) <= 2e-5 * L


# --------------------------------------------------------------------------- #
#  what the specification expects to be written
# --------------------------------------------------------------------------- #
def letters(i):
    s = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = chr(ord("A") + r) + s
    return s


def dist_numbers(w0, w1):
    if w0 * w1 < 0:
        return [w0, w1]
    return [abs(w0)] if w0 == w1 else [abs(w0), abs(w1)]


def wording(a, pic, us):
    """[(what, x, numbers or None, word or unit)] of every text in the drawing"""
    out = []
    if a["values"]:
        for p in pic["pts"]:
            out.append(("force", micro(p["x"]), [abs(micro(p["p"]))], us["force"]))
        for p in pic["cpl"]:
            out.append(("couple", micro(p["x"]), [abs(micro(p["p"]))], us["moment"]))
        for d in pic["dist"]:
            x0, x1 = micro(d["x0"]), micro(d["x1"])
            out.append(("intensity", (x0 + x1) / 2, dist_numbers(micro(d["w0"]), micro(d["w1"])), us["dist"]))
            if d["part"]:
                out.append(("extent", (x0 + x1) / 2, [x1 - x0], us["length"]))
    if a["dims"]:
        xs = [micro(x) for x in pic["xs"]]
        for x0, x1 in zip(xs, xs[1:]):
            out.append(("span", (x0 + x1) / 2, [x1 - x0], us["length"]))
    return out


def match_texts(c, got, want, L, tol=None):
    """got: [(x, text)]; every expected text once, and nothing else"""
    left = list(got)
    for what, x, nums, unit in want:
        for k, (gx, t) in enumerate(left):
            if abs(gx - x) > (tol or 1e-5) * L:
                continue
            ns = [float(v) for v in NUM.findall(t)]
            rest = NUM.sub("#", t)
            if len(ns) != len(nums) or any(abs(g - n) > 1e-5 * max(abs(n), 1e-9) for g, n in zip(ns, nums)):
                continue
            words = rest.replace("→", " ").replace("#", " ").split()
            if words != ([unit] if unit else []):
                continue
            del left[k]
            break
        else:
            raise Mismatch(f"{c.where}no text for the {what} {nums} {unit!r} at x = {x:g}: {got}")
        c.stats["cmp"] += 1
    c.true(f"texts which stand for nothing: {left}", not left)


# --------------------------------------------------------------------------- #
#  matplotlib
# --------------------------------------------------------------------------- #
def read_mpl(ax):
    from matplotlib.colors import to_rgba
    from matplotlib.patches import Arc, Circle, Polygon, Wedge
    from matplotlib.text import Annotation

    black, white = to_rgba("k")[:3], to_rgba("w")[:3]
    g = dict(arrows=[], dims=[], texts=[], tri=[], heads=[], areas=[], circ=[], wedge=[], arcs=[], lines=[])
    for t in ax.texts:
        if isinstance(t, Annotation) and t.arrow_patch is not None:
            both = type(t.arrow_patch.get_arrowstyle()).__name__ in ("CurveAB", "CurveFilledAB")
            g["dims" if both else "arrows"].append((tuple(t.xy), tuple(t.get_position())))
        else:
            g["texts"].append((t.get_position(), t.get_text()))
    for p in ax.patches:
        if isinstance(p, Arc):
            g["arcs"].append((tuple(p.center), p.width))
        elif isinstance(p, Circle):
            g["circ"].append(tuple(p.center))
        elif isinstance(p, Wedge):
            g["wedge"].append((tuple(p.center), p.theta1 % 360, p.theta2 % 360))
        elif isinstance(p, Polygon):
            v = np.asarray(p.get_xy(), float)
            if len(v) > 1 and np.allclose(v[0], v[-1]):
                v = v[:-1]
            fc = p.get_facecolor()
            if len(v) == 3:
                g["tri" if fc[:3] == white else "heads"].append(v)
            else:
                g["areas"].append(v)
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        g["lines"].append((x, y, to_rgba(l.get_color())[:3] == black))
    return g


def mpl_supports(c, g, pic, L):
    nodes = [micro(x) for x in pic["xs"]]
    kinds = {s["node"]: s for s in pic["sups"]}
    beds = pic["beds"]
    eps = 1e-6 * L
    black = [(x, y) for x, y, k in g["lines"] if k]
    zig = [x[0] for x, y in black if 5 < len(x) < 60 and abs(y[0]) < eps and y[-1] < -0.01 * L]
    spi = [x.mean() for x, y in black if len(x) >= 60 and y.min() > -eps]
    spin = [(x.min() + x.max()) / 2 for x, y in black if len(x) >= 60 and y.min() > -eps]
    walls = [x[0] for x, y in black if len(x) == 2 and abs(x[0] - x[1]) < eps and y.min() < -0.02 * L and y.max() > 0.02 * L]
    flats = [((x[0] + x[1]) / 2, abs(x[1] - x[0])) for x, y in black
             if len(x) == 2 and abs(y[0] - y[1]) < eps and y[0] < -0.002 * L]
    low = [p for p in g["circ"] if p[1] < -0.01 * L]
    on = [p[0] for p in g["circ"] if abs(p[1]) < eps]
    tri = [v[np.argmax(v[:, 1])] for v in g["tri"]]
    simple = [s for s in pic["sups"] if s["kind"] in ("pin", "roller")]
    c.equal("support triangles drawn", sorted(round(float(t[0]) / L, 6) for t in tri),
            sorted(round(micro(s["x"]) / L, 6) for s in simple))
    c.equal("roller wheels drawn", len(low), 2 * sum(s["kind"] == "roller" for s in pic["sups"]))
    n_spring = sum(s["kind"] == "spring" for s in pic["sups"])
    n_spiral = sum(s["spiral"] or s["kind"] == "torsion" for s in pic["sups"])
    c.equal("rotational springs drawn", len(spi), n_spiral)
    c.equal("walls drawn", len(walls), sum(s["kind"] == "fixed" for s in pic["sups"]))
    for i, x in enumerate(nodes):
        s = kinds.get(i)
        k = s["kind"] if s else ""
        at = f"node {i} ({k or 'free'})"
        if k == "roller":
            d = [p[0] - x for p in low]
            c.true(f"{at}: wheels under the support", any(abs(a + b) < eps and a < -eps for a in d for b in d))
        if k in ("spring",):
            c.true(f"{at}: spring drawn", any(abs(z - x) < eps for z in zig))
        if k == "fixed":
            c.true(f"{at}: wall drawn", any(abs(w - x) < eps for w in walls))
            if s["face"]:
                h = [max(a, key=lambda t: abs(t - x)) - x for a, b in black
                     if len(a) == 2 and abs(a[0] - x) < eps and abs(a[1] - a[0]) > eps and abs(b[1] - b[0]) > eps and b.max() > eps]
                c.true(f"{at}: the wall faces outwards {h}", len(h) >= 3 and all(t * s["face"] > 0 for t in h))
        if k == "guided":
            c.true(f"{at}: guide drawn", sum(abs(f[0] - x) < eps for f in flats) >= 3)
        if s and (s["spiral"] or k == "torsion"):
            c.true(f"{at}: rotational spring drawn", any(abs(t - x) < 0.02 * L for t in spin))
        marks = [m for m in pic["marks"] if m["node"] == i]
        full = any(abs(t - x) < eps for t in on)
        half = any(abs(w[0][0] - x) < eps for w in g["wedge"])
        c.equal(f"{at}: joint circle", full, bool(marks and marks[0]["full"]))
        if not (marks and marks[0]["full"]):
            c.equal(f"{at}: half circle under a continuous beam", half, bool(marks))
    n_bed = 0
    for i in beds:
        x0, x1 = nodes[i], nodes[i + 1]
        c.true(f"ground under span {i + 1}", any(abs(f[0] - (x0 + x1) / 2) < eps and abs(f[1] - (x1 - x0)) < eps for f in flats))
        inside = [z for z in zig if x0 - eps <= z <= x1 + eps]
        c.true(f"springs under span {i + 1}", len(inside) >= 3 and any(x0 + eps < z < x1 - eps for z in inside))
        n_bed += 1
    c.true(f"springs drawn: {len(zig)}", len(zig) == n_spring if not n_bed else len(zig) >= n_spring + 3 * n_bed)
    for z in zig:
        ok = any(abs(z - micro(s["x"])) < eps for s in pic["sups"] if s["kind"] == "spring") or any(
            nodes[i] - eps <= z <= nodes[i + 1] + eps for i in beds)
        c.true(f"a spring at x = {z:g} which the beam does not have", ok)


def height_at(area, x, eps):
    lo, hi = area[:, 0].min(), area[:, 0].max()
    if x < lo - eps or x > hi + eps:
        return None
    h0 = max((v[1] for v in area if abs(v[0] - lo) < eps), key=abs)
    h1 = max((v[1] for v in area if abs(v[0] - hi) < eps), key=abs)
    return h0 + (h1 - h0) * (x - lo) / (hi - lo)


def mpl_loads(c, g, pic, L):
    eps = 1e-6 * L
    areas = list(g["areas"])
    ends = []
    for d in pic["dist"]:
        x0, x1, w0, w1 = (micro(d[k]) for k in ("x0", "x1", "w0", "w1"))
        for k, v in enumerate(areas):
            if abs(v[:, 0].min() - x0) > eps or abs(v[:, 0].max() - x1) > eps:
                continue
            h0, h1 = height_at(v, x0, eps), height_at(v, x1, eps)
            if np.sign(round(h0 / L, 9)) == np.sign(w0) and np.sign(round(h1 / L, 9)) == np.sign(w1):
                ends += [(abs(w0), abs(h0)), (abs(w1), abs(h1))]
                del areas[k]
                break
        else:
            raise Mismatch(f"{c.where}no load drawn from {x0:g} to {x1:g} for {w0:g} to {w1:g}")
        c.stats["cmp"] += 1
    c.true(f"{len(areas)} distributed loads drawn which are not there", not areas)
    ends.sort()
    c.true("a heavier load is drawn higher", all(b[1] >= a[1] - eps for a, b in zip(ends, ends[1:])))
    single = []
    for head, tail in g["arrows"]:
        c.true("load arrows are vertical and end on the beam", abs(head[0] - tail[0]) < eps and abs(head[1]) < eps)
        hs = [height_at(v, head[0], eps) for v in g["areas"]]
        if any(h is not None and abs(h - tail[1]) < 1e-4 * L for h in hs):
            continue
        single.append((head[0], np.sign(tail[1])))
    want = sorted((round(micro(p["x"]) / L, 6), 1.0 if p["p"] > 0 else -1.0) for p in pic["pts"])
    c.equal("point load arrows (place, side of the beam)", sorted((round(float(x) / L, 6), float(s)) for x, s in single), want)
    for v in g["areas"]:
        lo, hi = v[:, 0].min(), v[:, 0].max()
        hs = [h for h, t in g["arrows"] if lo - eps <= h[0] <= hi + eps]
        c.true(f"arrows along the load from {lo:g} to {hi:g}", len(hs) >= 2)
    # couples: an arc about the point, its head showing the sense
    turn = []
    for (cx, cy), w in g["arcs"]:
        best = None
        for v in g["heads"]:
            r = np.hypot(v[:, 0] - cx, v[:, 1] - cy)
            k = int(np.argmin(abs(r - w / 2)))
            if abs(r[k] - w / 2) < 1e-6 * L:
                back = (v.sum(axis=0) - v[k]) / 2
                d = v[k] - back
                rad = v[k] - np.array([cx, cy])
                best = np.sign(rad[0] * d[1] - rad[1] * d[0])
                if not any(abs(t[0] - cx) < eps and t[2] is v for t in turn):
                    turn.append((cx, best, v))
                    break
    want = sorted((round(micro(p["x"]) / L, 6), 1.0 if p["p"] > 0 else -1.0) for p in pic["cpl"])
    c.equal("couples drawn (place, anticlockwise or not)", sorted((round(float(x) / L, 6), float(s)) for x, s, _ in turn), want)
    c.equal("arcs drawn", len(g["arcs"]), len(pic["cpl"]))


def check_mpl(c, a, ax, pic, us):
    L = micro(pic["xs"][-1])
    g = read_mpl(ax)
    eps = 1e-6 * L
    c.true("the beam from end to end", any(
        k and np.allclose(y, 0, atol=eps) and abs(x.min()) < eps and abs(x.max() - L) < eps for x, y, k in g["lines"]))
    c.equal("axis label", ax.get_xlabel(), "Distance along beam" + (f" ({us['length']})" if us["length"] else ""))
    if a["sups"]:
        mpl_supports(c, g, pic, L)
    else:
        c.true("supports drawn though not asked for", not g["tri"] and not g["circ"] and not g["wedge"])
    mpl_loads(c, g, pic, L)
    names, rest = [], []
    for (x, y), t in g["texts"]:
        (names if re.fullmatch("[A-Z]+", t) else rest).append((x, t))
    show = a["labels"] and a["sups"]
    c.equal("supports named", sorted(t for _, t in names), sorted(letters(s["node"]) for s in pic["sups"]) if show else [])
    if show:
        for s in pic["sups"]:
            x = dict((t, x) for x, t in names)[letters(s["node"])]
            c.true(f"name of node {s['node']} beside it", abs(x - micro(s["x"])) <= 0.06 * L)
    match_texts(c, rest, wording(a, pic, us), L)
    xs = [micro(x) for x in pic["xs"]]
    want = list(zip(xs, xs[1:])) if a["dims"] else []
    want = want + [(micro(d["x0"]), micro(d["x1"])) for d in pic["dist"] if d["part"]] if a["values"] else want
    got = [tuple(sorted((p[0], q[0]))) for p, q in g["dims"]]
    c.equal("dimension lines", sorted((round(float(p) / L, 6), round(float(q) / L, 6)) for p, q in got),
            sorted((round(p / L, 6), round(q / L, 6)) for p, q in want))
    # nothing of the loads outside the frame
    (xa, xb), (ya, yb) = ax.get_xlim(), ax.get_ylim()
    for head, tail in g["arrows"]:
        c.true(f"arrow at {head[0]:g} within the frame", xa <= head[0] <= xb and ya <= min(tail[1], 0) and max(tail[1], 0) <= yb)
    for v in g["areas"]:
        c.true("distributed load within the frame", xa <= v[:, 0].min() and v[:, 0].max() <= xb and ya <= v[:, 1].min() and v[:, 1].max() <= yb)


# --------------------------------------------------------------------------- #
#  TikZ
# --------------------------------------------------------------------------- #
SUPPORT = {"1": "pin", "2": "roller", "4": "fixed", "5": "spring", "3": "guided", "6": "torsion"}


def plain(s):
    """LaTeX number and unit -> plain words"""
    return s.replace(r"\rightarrow", "→").replace("$", " ").replace("~", " ").strip()


def check_tikz(c, a, tex, pic, us, standalone, scale):
    xs = [micro(x) for x in pic["xs"]]
    L = xs[-1]
    c.equal("whole document", tex.lstrip().startswith(r"\documentclass"), standalone)
    c.equal("document closed", r"\end{document}" in tex, standalone)
    c.equal("pictures", (tex.count(r"\begin{tikzpicture}"), tex.count(r"\end{tikzpicture}")), (1, 1))
    c.equal("scopes opened and closed", tex.count(r"\begin{scope}"), tex.count(r"\end{scope}"))
    c.equal("braces closed", tex.count("{"), tex.count("}"))
    sc = re.findall(r"\\scaling\{([^}]*)\}", tex)
    c.equal("scale", [float(s) for s in sc], [scale] if scale else [])
    body = tex[tex.index(r"\begin{tikzpicture}"):]
    pts = re.findall(r"\\point\{(\w+)\}\{([^}]*)\}\{([^}]*)\}", body)
    c.equal("nodes", len(pts), len(xs))
    at = {}
    for (n, x, y), w in zip(pts, xs):
        c.true(f"node {n} at {x}, {y}", near(float(x), w, L) and float(y) == 0)
        at[n] = w
    order = [p[0] for p in pts]
    c.equal("distinct node names", len(set(order)), len(order))
    c.equal("members", [(p, q) for p, q in re.findall(r"\\beam\{\w+\}\{(\w+)\}\{(\w+)\}", body)], list(zip(order, order[1:])))
    for n, p, f, q in re.findall(r"\\node *\((\w+)\) *at *\(\$\((\w+)\)!([^!]*)!\((\w+)\)\$\)", body):
        c.true(f"node name {n} used twice", n not in at)
        at[n] = at[p] + float(f) * (at[q] - at[p])
    # supports
    sup = {}
    extra = []
    for t, n, rot in re.findall(r"\\support\{(\w+)\}\{(\w+)\}(?:\[([^\]]*)\])?", body):
        c.true(f"support symbol {t}", t[0] in SUPPORT)
        if n in order:
            sup.setdefault(order.index(n), []).append((SUPPORT[t[0]], rot))
        else:
            extra.append((SUPPORT[t[0]], at[n]))
    want = {s["node"]: [s["kind"]] + (["torsion"] if s["spiral"] else []) for s in pic["sups"]}
    c.equal("support symbols", {k: sorted(t for t, _ in v) for k, v in sup.items()}, {k: sorted(v) for k, v in want.items()})
    for s in pic["sups"]:
        if s["kind"] == "fixed" and s["face"]:
            c.equal(f"the wall of node {s['node']} faces outwards", sup[s["node"]][0][1], "90" if s["face"] > 0 else "-90")
    for i in pic["beds"]:
        n = [x for t, x in extra if t == "spring" and xs[i] - 1e-4 * L <= x <= xs[i + 1] + 1e-4 * L]
        c.true(f"springs under span {i + 1}", len(n) >= 3)
    for t, x in extra:
        c.true(f"support {t} at {x:g}", t == "spring" and any(xs[i] - 1e-4 * L <= x <= xs[i + 1] + 1e-4 * L for i in pic["beds"]))
    hinges = {}
    for t, n in re.findall(r"\\hinge\{(\w+)\}\{(\w+)\}", body):
        hinges.setdefault(order.index(n), []).append(t)
    c.equal("joint circles", hinges, {m["node"]: ["1" if m["full"] else "2"] for m in pic["marks"]})
    # distributed loads: pieces drawn from left to right press down, the others up
    pieces = []
    for p, q, h0, h1 in re.findall(r"\\lineload\{1\}\{(\w+)\}\{(\w+)\}\[([^\]]*)\]\[([^\]]*)\]", body):
        x0, x1, h0, h1 = at[p], at[q], float(h0), float(h1)
        c.true("heights are lengths", h0 >= 0 and h1 >= 0)
        pieces.append((x0, x1, h0, h1, 1) if x0 < x1 else (x1, x0, h1, h0, -1))
    ends = []
    for d in pic["dist"]:
        x0, x1, w0, w1 = (micro(d[k]) for k in ("x0", "x1", "w0", "w1"))
        parts = [(x0, x1, w0, w1)]
        if w0 * w1 < 0:
            z = x0 + (x1 - x0) * w0 / (w0 - w1)
            parts = [(x0, z, w0, 0), (z, x1, 0, w1)]
        for u0, u1, v0, v1 in parts:
            for k, (g0, g1, h0, h1, s) in enumerate(pieces):
                if near(g0, u0, L) and near(g1, u1, L) and s == np.sign(v0 + v1) and (h0 > 0) == (v0 != 0) and (h1 > 0) == (v1 != 0):
                    ends += [(abs(v0), h0), (abs(v1), h1)]
                    del pieces[k]
                    break
            else:
                raise Mismatch(f"{c.where}no load drawn from {u0:g} to {u1:g} for {v0:g} to {v1:g}: {pieces}")
            c.stats["cmp"] += 1
    c.true(f"distributed loads drawn which are not there: {pieces}", not pieces)
    ends.sort()
    c.true("a heavier load is drawn higher", all(b[1] >= a_[1] - 1e-6 for a_, b in zip(ends, ends[1:])))
    # forces and couples
    got_p, got_m = [], []
    for t, n, ang in re.findall(r"\\load\{(\d)\}\{(\w+)\}(?:\[([^\]]*)\])?", body):
        if t == "1":
            got_p.append((round(at[n] / L, 4), {"90": 1, "270": -1, "-90": -1}.get(ang, 0)))
        else:
            got_m.append((round(at[n] / L, 4), {"3": 1, "2": -1}.get(t, 0)))
    sign = lambda v: [(round(micro(p["x"]) / L, 4), 1 if p["p"] > 0 else -1) for p in v]  # noqa: E731
    close = lambda p, q: len(p) == len(q) and all(abs(a_[0] - b[0]) < 2e-4 and a_[1] == b[1] for a_, b in zip(sorted(p), sorted(q)))  # noqa: E731
    c.true(f"point loads {sorted(got_p)}, expected {sorted(sign(pic['pts']))}", close(got_p, sign(pic["pts"])))
    c.true(f"couples {sorted(got_m)}, expected {sorted(sign(pic['cpl']))}", close(got_m, sign(pic["cpl"])))
    # writing
    texts, names = [], []
    for n, t in re.findall(r"\\notation\{[12]\}\{(\w+)\}\{([^{}]*)\}", body):
        w = plain(t)
        (names if re.fullmatch("[A-Z]+", w) else texts).append((at[n], w))
    for p, q, t in re.findall(r"\\notation\{5\}\{(\w+)\}\{(\w+)\}\[([^\]]*)\]", body):
        texts.append(((at[p] + at[q]) / 2, plain(t)))
    for p, q, t in re.findall(r"\\dimensioning\{\w+\}\{(\w+)\}\{(\w+)\}\{[^}]*\}\[([^\]]*)\]", body):
        texts.append(((at[p] + at[q]) / 2, plain(t)))
    c.equal("supports named", sorted((round(x / L, 5), t) for x, t in names),
            sorted((round(micro(s["x"]) / L, 5), letters(s["node"])) for s in pic["sups"]) if a["labels"] else [])
    match_texts(c, texts, wording(a, pic, us), L, 4e-5)


# --------------------------------------------------------------------------- #
def snapshot(beam, lc, lst):
    return copy.deepcopy((
        list(beam.restraints), list(beam.mbr_lengths), list(beam.mbr_EIs), list(beam.mbr_eletype), list(beam.loads), beam.LM,
        list(beam.mbr_kf or []), beam.length, [float(x) for x in beam._terminal_coords],
        [list(k.loads) for k in lc] if lc is not None else None, lst))


def replay(label, states, stats):
    import matplotlib.pyplot as plt
    import pycba

    beam = None
    hist = []
    try:
        for st in states:
            a = st["call"]
            name = a["name"]
            stats["actions"][name] = stats["actions"].get(name, 0) + 1
            if name == "init":
                kw = beam_args(st["beam"])
                hist = [f"Beam(L={kw['L']}, R={kw['R']}, eletype={kw['eletype']}, kf={kw.get('kf')})"[:400]]
                beam = pycba.Beam(**kw)
                stats["sample"] = hist[0]
                continue
            if name == "add":
                hist.append(f"add {a['row']} to {a['case']}")
                if a["case"] < 0:
                    beam.add_load(lm_of([a["row"]])[0])
                continue
            hist.append("draw " + ", ".join(f"{k}={a[k]}" for k in ("source", "back", "dims", "labels", "values", "sups", "sys", "dflt", "factor", "style")))
            c = Cmp(stats, "; ".join(hist[:1] + hist[1:][-9:]) + ": ")
            rows = [lm_of(r) for r in st["cases"]]
            src, lc, lst = a["source"], None, None
            args, kw = [], {}
            cases = []
            for k in (0, 1):
                case = pycba.LoadCase(f"case {k}")
                for r in rows[k]:
                    case.add_load(list(r))
                cases.append(case)
            if src == "bare":
                args = [[]]
            elif src == "list":
                lst = copy.deepcopy(rows[0])
                args = [lst]
            elif src == "case":
                args = [cases[0]]
            elif src == "combo":
                lc = pycba.LoadCases(beam, cases)
                combo = pycba.LoadCombination("both", factors=[f / 1000 for f in a["factor"]])
                if a["style"] % 2:
                    args = [combo.to_load_case(lc)]
                else:
                    args, kw = [combo], {"load_cases": lc}
            pycba.set_units(system(a["dflt"]))
            us = spec_units(a["sys"] if a["sys"] >= 0 else a["dflt"])
            if a["sys"] >= 0:
                kw["units"] = override(a["sys"], a["style"])
            opts = dict(dimensions=a["dims"], labels=a["labels"], load_values=a["values"])
            before = snapshot(beam, cases, lst)
            if a["back"] in ("mpl", "both"):
                if a["style"] == 0:
                    fig, ax0 = plt.subplots()
                    ax = beam.plot(*args, ax=ax0, show_supports=a["sups"], **opts, **kw)
                    c.true("drawn elsewhere than on the axes given", ax is ax0)
                else:
                    ax = beam.plot(*args, show_supports=a["sups"], equal_aspect=a["style"] != 3, **opts, **kw)
                check_mpl(c, a, ax, st["pic"], us)
                plt.close("all")
                if a["style"] == 2:
                    d = tempfile.mkdtemp(prefix="png_")
                    try:
                        f = os.path.join(d, "fig.svg")
                        ax = beam.plot(*args, show_supports=a["sups"], save=f, **opts, **kw)
                        c.true("the figure is drawn, and written too", hasattr(ax, "figure") and "<svg" in open(f, encoding="utf8").read(2000))
                    finally:
                        shutil.rmtree(d, ignore_errors=True)
                    plt.close("all")
            if a["back"] in ("tikz", "both"):
                standalone, scale = a["style"] != 4, (0.5 if a["style"] == 2 else None)
                if a["style"] == 1:
                    d = tempfile.mkdtemp(prefix="tikz_")
                    try:
                        f = os.path.join(d, "fig.tex")
                        # whatever it is called, the source goes to a .tex file
                        asked = os.path.join(d, ("fig.tex", "fig", "fig.txt")[(len(st["pic"]["pts"]) + len(st["pic"]["dist"])) % 3])
                        if not a["dims"] and shutil.which("pdflatex") is None:
                            # a .pdf is compiled, which needs LaTeX; the source is left all the same
                            try:
                                beam.plot(*args, save=os.path.join(d, "fig.pdf"), tikz=True, **opts, **kw)
                                c.true("a figure compiled without LaTeX", False)
                            except RuntimeError:
                                r = f
                        elif a["sups"]:
                            r = beam.plot(*args, save=asked, tikz=True, **opts, **kw) if asked != f else beam.plot(*args, save=f, **opts, **kw)
                        else:
                            r = beam.save_tikz(asked, *args, **opts, **kw)
                        c.equal("file written", os.path.abspath(str(r)), f)
                        tex = open(f, encoding="utf8").read()
                    finally:
                        shutil.rmtree(d, ignore_errors=True)
                elif a["style"] == 5:
                    tex = beam.plot(*args, tikz=True, **opts, **kw)
                else:
                    tex = beam.to_tikz(*args, standalone=standalone, scale=scale, **opts, **kw)
                check_tikz(c, a, tex, st["pic"], us, standalone, scale)
            c.true("drawing changed the model or the loads", snapshot(beam, cases, lst) == before)
            c.true("drawing changed the display units", pycba.get_units() == system(a["dflt"]))
    finally:
        plt.close("all")
        pycba.set_units("si")
