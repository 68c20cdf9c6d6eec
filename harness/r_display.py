"""Replay of display.qnt: unit systems, plotting backends and every kind of plot,
over one set of results. The numbers drawn are the stored ones, the words name
the units in force, and nothing drawn or set changes a result."""
import re

import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, lm_of, make_analysis
from r_elastic import beam_repr
from r_lifecycle import same, snapshot
from r_units import override, spec_units, styled, system, aliases

NUM = r"[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?"


def unknown():
    import functools
    import os

    from core import SPEC
    txt = open(os.path.join(SPEC, "units.qnt"), encoding="utf8").read()
    return re.findall(r'"([^"]*)"', re.search(r"UNKNOWN: List\[str\] = \[([^\]]*)\]", txt).group(1))


class Model:
    """the real objects of one behaviour"""

    def __init__(self, st):
        import pycba

        self.b = st["beam"]
        self.raw = st["loads"]
        self.rows = [lm_of(r) for r in st["loads"]]
        self.L = sum(micro(s["L"]) for s in self.b["spans"])
        self.ba = make_analysis(self.b, [])
        self.res = {}
        self.ok = bool(st["held_"][0])
        self.lazy = {}
        self.veh = pycba.Vehicle([0.11 * self.L, 0.07 * self.L], [60.0, 60.0, 45.0])
        self.cur = -1

    # -- what is built only when drawn ---------------------------------------------
    def get(self, what):
        if what not in self.lazy:
            self.lazy[what] = getattr(self, "mk_" + what)()
        return self.lazy[what]

    def mk_env(self):
        import pycba
        br = []
        for r in self.raw:
            a = make_analysis(self.b, r)
            if a.analyze() != 0:
                raise Mismatch("analysis of a stable beam failed")
            br.append(a.beam_results)
        return pycba.Envelopes(br)

    def mk_bridge(self):
        import pycba
        return pycba.BridgeAnalysis(make_analysis(self.b, []), self.veh)

    mk_animated = mk_bridge  # an animation is a traverse, so it has a bridge of its own

    def mk_traverse(self):
        return self.get("bridge").run_vehicle(self.L / 12, False)

    def mk_several(self):
        import pycba
        br = self.get("bridge")
        e = self.get("traverse")
        z = pycba.Envelopes.zero_like(e)
        z.augment(e)
        # a different number of positions from the latest traverse
        e2 = pycba.BridgeAnalysis(make_analysis(self.b, []), self.veh).run_vehicle(self.L / 9, False)
        z.augment(e2)
        return z

    def mk_il(self):
        import pycba
        kw = dict(L=[micro(s["L"]) for s in self.b["spans"]])
        a = make_analysis(self.b, [])
        il = pycba.InfluenceLines(L=kw["L"], EI=a.beam.mbr_EIs, R=list(a.beam.restraints), eletype=list(a.beam.mbr_eletype))
        il.create_ils(step=self.L / 7)
        return il

    def mk_modes(self):
        return make_analysis(self.b, []).modal(2.5, n_modes=3)

    def mk_moments(self):
        import pycba
        n = len(self.b["spans"])
        R = [-1, 0] * n + [-1, -1]
        nl = pycba.NonlinearBeamAnalysis(L=[micro(s["L"]) for s in self.b["spans"]], EI=3e4, R=R, Mp=100.0, mesh_size=self.L / 12)
        return nl.analyze([[1, 2, 10.0, 0.5 * micro(self.b["spans"][0]["L"]), 0]], record_every=1)

    def mk_moving(self):
        import pycba
        n = len(self.b["spans"])
        R = [-1, 0] * n + [-1, -1]
        nl = pycba.NonlinearBeamAnalysis(L=[micro(s["L"]) for s in self.b["spans"]], EI=3e4, R=R, Mp=6.0 * self.L, mesh_size=self.L / 8)
        return nl.analyze_moving(vehicle=self.veh, step=self.L / 15, n_sub=2, record_every=1)

    def mk_cases(self):
        from pycba.load_cases import LoadCase
        return [LoadCase(f"case {i}", [list(r) for r in rows]) for i, rows in enumerate(self.rows)]

    def mk_responses(self):
        x = np.linspace(0.0, self.L, 17)
        return x, np.array([np.sin(x), np.cos(2 * x)]), -1.5 - 0.1 * x, 2.5 + 0.2 * x

    def mk_section(self):
        from model import section
        s = section(self.b["spans"][0]["ei"])
        import pycba
        if not isinstance(s, pycba.SectionEI):
            e = pycba.SectionEI()
            e.add_segment("linear", [0.0, 0.4 * self.L], [s, 1.5 * s])
            e.add_segment("const", [0.4 * self.L, self.L], 0.5 * s)
            s = e
        return s

    def state(self):
        """every stored number"""
        out = [snapshot(self.ba.beam_results) or []]
        for k in ("env", "traverse", "several"):
            e = self.lazy.get(k)
            if e is not None:
                out.append([np.array(getattr(e, a), dtype=float, copy=True) for a in
                            ("x", "Mmax", "Mmin", "Vmax", "Vmin", "Rmax", "Rmin", "Rmaxval", "Rminval",
                             "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin") if getattr(e, a, None) is not None])
        b = self.ba.beam
        out.append([np.array(x, dtype=float) for x in (b.restraints, b.mbr_lengths)])
        out.append([np.array([float(y) for y in r]) for r in b.loads])
        out.append([np.array(self.veh.axw, float), np.array(self.veh.axs, float)])
        return out


def alike(a, b):
    """equal as far as both go (objects made on the way come later)"""
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def curves_of(ax):
    return [ln for ln in ax.get_lines() if len(ln.get_xdata()) > 2]


def label(word, unit):
    return f"{word} ({unit})" if unit else word


def all_axes(fig):
    return list(fig.axes)


def visual(ax, y):
    return -np.asarray(y, float) if ax.yaxis_inverted() else np.asarray(y, float)


def check_curves(c, what, drawn, x, want):
    """every stored curve is drawn, and no other"""
    left = list(drawn)
    for name, w in want:
        for k, (xs, ys) in enumerate(left):
            tol = 1e-9 * max(1e-300, float(np.max(np.abs(w))))
            if len(xs) == len(x[name]) and np.allclose(xs, x[name], rtol=1e-12, atol=1e-9) and np.allclose(ys, w, rtol=1e-9, atol=tol):
                del left[k]
                break
        else:
            raise Mismatch(f"{c.where}{what}: the curve {name} is not drawn as stored")
        c.stats["cmp"] += len(w)
    c.true(f"{what}: {len(left)} curves drawn which are not in the results", not left)


def stored(m, sheet, kind, st, pos=None):
    """{curve name: (x, numbers)}"""
    out = {}

    def put(q, x, y):
        out[q] = (np.asarray(x, float), np.asarray(y, float))

    if kind in ("results", "resultsB", "resultsR", "bmd", "sfd", "dsd", "overM", "overD"):
        br = m.ba.beam_results
        put("M", br.results.x, br.results.M)
        put("V", br.results.x, br.results.V)
        # every member's stations carry a closing point at either end, which is
        # not part of the deflected shape
        put("D", np.concatenate([v.x[1:-1] for v in br.vRes]), np.concatenate([v.D[1:-1] for v in br.vRes]))
    elif kind in ("env", "envEach", "coincidents", "envelopes"):
        e = m.get("env") if kind != "envelopes" else m.get("drawn")
        for q in ("Mmax", "Mmin", "Vmax", "Vmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin"):
            if getattr(e, q, None) is not None:
                put(q, e.x, getattr(e, q))
        if kind == "envEach":
            for i, r in enumerate(e.vResults):
                put(f"M{i}", e.x, r.results.M)
                put(f"V{i}", e.x, r.results.V)
    elif kind == "static":
        r = m.get("bridge").ba.beam_results.results
        put("M", r.x, r.M)
        put("V", r.x, r.V)
    elif kind == "anim":
        # every position up to the frame on a bridge of its own
        import pycba
        br = pycba.BridgeAnalysis(make_analysis(m.b, []), m.veh)
        start, step, f, _ = m.lazy["frame"]
        each = []
        for i in range(f + 1):
            br.static_vehicle(start + i * step)
            each.append(br.ba.beam_results.results)
        for q in "MV":
            y = np.array([getattr(r, q) for r in each])
            put(q, each[-1].x, y[-1])
            put(f"soFar{q}max", each[-1].x, y.max(axis=0))
            put(f"soFar{q}min", each[-1].x, y.min(axis=0))
    elif kind == "ratios":
        d = m.get("ratiosdict")
        for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
            put("r" + q, d["x"], d[q])
    elif kind == "il":
        x, y = m.get("il").get_il(*m.get("poi"))
        put("il", x, y)
    elif kind in ("modes", "modesR"):
        for i in (0, 1, 2):
            x, y = m.get("modes").mode_shape(i)
            put(f"mode{i}", x, y)
    elif kind == "response":
        x, B, neg, pos = m.get("responses")
        for q, y in (("B0", B[0]), ("B1", B[1]), ("neg", neg), ("pos", pos)):
            put(q, x, y)
    elif kind == "moments":
        r = m.get("moments")
        put("final", r.node_coords, r.final_moments)
    return out


def panels_mpl(c, sheet, axes, data, exact=True):
    for p in sheet["panels"]:
        want_label = label(p["word"], p["unit"])
        got = [a for a in axes if a.get_ylabel() == want_label]
        c.true(f"one panel labelled {want_label!r} among {[a.get_ylabel() for a in axes]}", len(got) == 1)
        ax = got[0]
        drawn = [(np.asarray(ln.get_xdata(), float), visual(ax, ln.get_ydata())) for ln in curves_of(ax)]
        want, xs = [], {}
        for q in p["curves"]:
            x, y = data[q["q"]]
            want.append((q["q"], (-1 if q["down"] else 1) * y * micro(q["scale"])))
            xs[q["q"]] = x
        if not exact:
            drawn = [d for d in drawn if any(np.allclose(d[1], w, rtol=1e-9, atol=1e-9) for _, w in want if len(w) == len(d[1]))][:len(want)]
        check_curves(c, want_label, drawn, xs, want)
    xl = label(sheet["xword"], sheet["xunit"])
    c.true(f"a distance axis labelled {xl!r} among {[a.get_xlabel() for a in axes]}", any(a.get_xlabel() == xl for a in axes))


def panels_plotly(c, sheet, fig, data):
    lay = fig.layout.to_plotly_json()
    byrow = {}
    for t in fig.data:
        byrow.setdefault(t.yaxis or "y", []).append(t)
    titles = {}
    for k, v in lay.items():
        if k.startswith("yaxis"):
            titles["y" + k[5:]] = (v.get("title", {}).get("text", ""), v.get("autorange") == "reversed")
    c.equal("panels of the figure", sorted(t for t, _ in titles.values()),
            sorted(label(p["word"], p["unit"]) for p in sheet["panels"]))
    for p in sheet["panels"]:
        word = label(p["word"], p["unit"])
        key = next(k for k, t in titles.items() if t[0] == word)
        sign = -1.0 if titles[key][1] else 1.0
        drawn, want, xs = [], [], {}
        for t in byrow.get(key, []):
            drawn.append((np.asarray(t.x, float), sign * np.asarray(t.y, float)))
            h = t.hovertemplate or ""
            tail = h.split("}", 1)[1].split("<")[0].strip() if "}" in h else ""
            c.equal(f"{word}: the unit shown on hovering", tail, p["unit"])
        for q in p["curves"]:
            x, y = data[q["q"]]
            want.append((q["q"], (-1 if q["down"] else 1) * y * micro(q["scale"])))
            xs[q["q"]] = x
        check_curves(c, word, drawn, xs, want)
    xt = {v.get("title", {}).get("text") for k, v in lay.items() if k.startswith("xaxis")} - {None, ""}
    c.equal("distance axis of the figure", xt, {label(sheet["xword"], sheet["xunit"])})


def arrows_of(ax):
    """[(head, tail, colour)] of the annotation arrows"""
    out = []
    for t in ax.texts:
        if getattr(t, "arrow_patch", None) is not None and hasattr(t, "xyann"):
            out.append((np.array(t.xy, float), np.array(t.xyann, float)))
    return out


def check_acts(c, m, sheet, ax):
    """support actions drawn under the beam: place, way round, number and unit"""
    import r_schematic

    acts = sheet["acts"]
    L = m.L
    eps = 1e-6 * L
    big = max([1e-6] + [abs(pico(a["f"])) for a in acts] + [abs(pico(a["m"])) / L for a in acts])
    low = 2e-5 * big + 2e-6  # below this the sign is noise

    def close(got, want, scale):
        return abs(got - want) <= 1e-3 * abs(want) + 2e-5 * scale + 1e-6

    got = [(h, t) for h, t in arrows_of(ax) if h[1] < -eps and t[1] < -eps]
    texts = [(t.get_position(), t.get_text()) for t in ax.texts if t.get_text() and re.match(NUM, t.get_text())]
    rest = list(got)
    for a in acts:
        f = pico(a["f"])
        if abs(f) <= low:
            rest = [g for g in rest if abs(g[0][0] - micro(a["x"])) > eps]
            continue
        here = [g for g in rest if abs(g[0][0] - micro(a["x"])) < eps]
        c.true(f"one reaction arrow at x = {micro(a['x']):g}: {len(here)}", len(here) == 1)
        h, t = here[0]
        c.true(f"the reaction {f:g} at x = {micro(a['x']):g} points its way", (h[1] - t[1]) * f > 0)
        rest = [g for g in rest if g is not here[0]]
        word = [s for p, s in texts if abs(p[0] - micro(a["x"])) < eps and p[1] < 0]
        hit = False
        for s in word:
            mt = re.fullmatch(rf"({NUM})(?: (.+))?", s)
            if mt and (mt.group(2) or "") == a["tf"] and close(float(mt.group(1)), abs(f), big):
                hit = True
        c.true(f"the reaction {f:g} at x = {micro(a['x']):g} is written with its unit among {word}", hit)
    c.true(f"{len(rest)} reaction arrows where nothing acts", all(any(abs(g[0][0] - micro(a["x"])) < eps for a in acts) for g in rest))
    arcs = r_schematic.read_mpl(ax)["arcs"]
    for a in acts:
        mm = pico(a["m"])
        if abs(mm) <= low * L:
            arcs = [w for w in arcs if abs(w[0][0] - micro(a["x"])) > eps]
            continue
        here = [w for w in arcs if abs(w[0][0] - micro(a["x"])) < eps]
        c.true(f"one moment arc at x = {micro(a['x']):g}", len(here) == 1)
        arcs = [w for w in arcs if w is not here[0]]
        c.equal(f"the sense of the moment {mm:g} at x = {micro(a['x']):g}",
                turning(r_schematic.read_mpl(ax), here[0], L), 1.0 if mm > 0 else -1.0)
        word = [s for p, s in texts if abs(p[0] - micro(a["x"])) < 0.15 * L]
        hit = False
        for s in word:
            mt = re.fullmatch(rf"({NUM})(?: (.+))?", s)
            if mt and (mt.group(2) or "") == a["tm"] and close(abs(float(mt.group(1))), abs(mm), big * L):
                hit = True
        c.true(f"the moment {mm:g} at x = {micro(a['x']):g} is written with its unit among {word}", hit)
    c.true(f"{len(arcs)} moment arcs where nothing acts", not arcs)


def turning(g, arc, L):
    (cx, cy), w = arc
    for v in g["heads"]:
        r = np.hypot(v[:, 0] - cx, v[:, 1] - cy)
        k = int(np.argmin(abs(r - w / 2)))
        if abs(r[k] - w / 2) < 1e-6 * L:
            d = v[k] - (v.sum(axis=0) - v[k]) / 2
            rad = v[k] - np.array([cx, cy])
            return float(np.sign(rad[0] * d[1] - rad[1] * d[0]))
    return 0.0


def check_vehicle_words(c, texts, us):
    fu = f" {us['force']}" if us["force"] else ""
    want = f"2×60 + 45{fu}"
    c.true(f"the vehicle is described as {want!r} in {texts}", any(want in t and f"ΣW = 165{fu})" in t for t in texts))


def draw(c, m, st):
    """perform one drawing action"""
    import matplotlib.pyplot as plt
    from pycba.load_cases import plot_load_patterns, plot_response_envelope
    from pycba.prestress import Parabola, plot_tendon

    call, sheet = st["call"], st["sheet"]
    kind = call["kind"]
    style, k, back = call["style"], call["k"], call["back"]
    units = None if call["over"] == -1 else ("no such system" if call["over"] == -2 else override(call["over"], style))
    kw = {"units": units}
    if call["over"] == -1 and style % 2:
        kw = {}
    kb = dict(kw)
    if back:
        kb["backend"] = back.upper() if style == 3 else back
    ba = m.ba
    ux = None if st["call"]["over"] == -2 else spec_units(st["dflt"] if call["over"] < 0 else call["over"])

    def go():
        if kind == "results":
            return ba.plot_results(show=False, **kb)
        if kind == "resultsB":
            return ba.plot_results(show_beam=True, show_reactions=False, show=False, **kb)
        if kind == "resultsR":
            return ba.plot_results(show_beam=bool(k % 2), show_reactions=True, show=False, **kb)
        if kind in ("bmd", "sfd", "dsd"):
            return getattr(ba, "plot_" + kind)(**kb)
        if kind in ("overM", "overD"):
            f = ba.plot_bmd if kind == "overM" else ba.plot_dsd
            a = f(**kb)
            return a if a is None else (f(ax=a, color="b", **kb), a)
        if kind == "reactions":
            return ba.plot_reactions(show=False, **kw)
        if kind == "env":
            return m.get("env").plot(**kb)
        if kind == "envEach":
            return m.get("env").plot(each=True, **kb)
        if kind == "coincidents":
            return m.get("env").plot_coincidents(show=False, **kw)
        if kind == "static":
            return m.get("bridge").plot_static(micro(1000000) * m.L * (k - 1) / 5.0, **kw)
        if kind == "anim":
            start, step, f, _ = m.lazy["frame"]
            anim = m.get("animated").animate(step, pos_start=start if k % 2 or start else None, fps=12, **kw)
            anim._draw_was_started = True  # frames are asked for one by one here
            n = int(round((m.L * 1.18 - start) / step)) + 1
            c.equal("one frame for every position", len(list(anim.new_frame_seq())), n)
            for i in ([f] if k % 3 else [n - 1, 0, f]):  # frames may be shown in any order
                anim._func(i)
            return anim
        if kind == "envelopes":
            return m.get("bridge").plot_envelopes(m.get("drawn"), **kw)
        if kind == "ratios":
            return m.get("bridge").plot_ratios(m.get("ratiosdict"), **kw)
        if kind == "il":
            return m.get("il").plot_il(*m.get("poi"), **kw)
        if kind == "modes":
            return m.get("modes").plot_modes([0, 1], **kw)
        if kind == "moments":
            return m.get("moments").plot_moments(**kw)
        if kind == "vehicle":
            return m.veh.plot(show=False, **kw)
        if kind == "modesR":
            return m.get("modes").plot_results(**kw)
        if kind == "hinges":
            return m.get("moments").plot_hinge_history(**kw)
        if kind == "state":
            return (m.get("moving").plot_beam_state(m.veh, **kw) if k % 3 else m.get("moments").plot_beam_state(**kw))
        if kind == "collapse":
            return m.get("moments").plot_collapse(**kw)
        if kind == "response":
            x, B, neg, pos = m.get("responses")
            return plot_response_envelope(x, B, neg, pos, **({"beam_model": ba} if k % 2 else {}),
                                          **({"load_cases": m.get("cases")} if k % 3 else {}), show=False)
        if kind == "patterns":
            return plot_load_patterns(ba, m.get("cases"), show=False)
        if kind == "tendon":
            return plot_tendon(ba if k % 2 else ba.beam, 800.0, m.get("profiles"), show=False, **kw)
        if kind == "section":
            return m.get("section").plot()
        return ba.plot_beam(**kw)

    # objects the drawing needs
    if kind in ("env", "envEach", "coincidents"):
        m.get("env")
    if kind == "anim":
        step = m.L / (4 + k % 3)
        start = [0.0, 0.0, 0.13 * m.L][k % 3]
        f = (2 * k + 1) % int(round((m.L * 1.18 - start) / step) + 1)
        m.lazy["frame"] = (start, step, f, start + f * step)
        m.get("animated")
    if kind in ("static", "envelopes", "ratios"):
        m.get("bridge")
        m.get("traverse")
    if kind == "envelopes":
        m.lazy["drawn"] = m.get("several") if k % 3 == 2 else m.get("traverse")
    if kind == "ratios":
        n = 11
        x = np.linspace(0.0, m.L, n)
        ns = sum(1 for r in m.b["rest"] if r < 0)
        d = {"x": x, "nsup": ns}
        for j, q in enumerate(("Mmax", "Mmin", "Vmax", "Vmin")):
            d[q] = np.cos(x + j + k)
        for i in range(ns):
            d[f"Rmax{i}"] = 0.3 * i + k + 0.1
            d[f"Rmin{i}"] = 1.7 * i - k - 0.2
        m.lazy["ratiosdict"] = d
        if ns < 1:
            return
    if kind == "il":
        m.get("il")
        m.lazy["poi"] = (m.L * (k + 0.5) / 10, "VMR"[k % 3] if k % 3 < 2 else "R")
        if m.lazy["poi"][1] == "R":
            m.lazy["poi"] = (0.0, "R") if m.b["rest"][0] < 0 else (m.L * 0.35, "M")
    if kind in ("modes", "modesR"):
        m.get("modes")
    if kind in ("moments", "hinges", "collapse", "state"):
        m.get("moving" if kind == "state" and k % 3 else "moments")
    if kind == "tendon":
        n = len(m.b["spans"])
        dips = [(micro(sheet["drape"][5 * i]["e"]), 0.3 + 0.04 * ((i + k) % 4), micro(sheet["drape"][5 * i + 4]["e"]))
                for i in range(n)] if sheet["drape"] else [(0.0, 0.3, 0.0)] * n
        m.lazy["profiles"] = [Parabola(*d) for d in dips]
    before = m.state()
    try:
        out = go()
    except KeyError:
        c.true(f"{kind}: a known unit system is refused", sheet["fails"] in ("units", "either"))
        out = None
    except ValueError as e:
        c.true(f"{kind}: drawing fails: {e}", sheet["fails"] in ("backend", "either"))
        out = None
    else:
        if sheet["fails"]:
            raise Mismatch(f"{c.where}{kind} with units {units!r} and backend {back!r} should be refused ({sheet['fails']})")
    if kind == "static":  # a static plot analyses its own bridge; nothing else may move
        pass
    c.true(f"{kind}: drawing changed stored numbers", alike(before, m.state()))
    if sheet["fails"]:
        return
    if not sheet["shown"]:
        c.true(f"{kind}: nothing has been analysed, yet it drew {out!r}", out is None)
        return
    data = stored(m, sheet, kind, st)
    if sheet["plotly"]:
        # overlaying belongs to axes, an interactive figure stands alone
        figs = out if isinstance(out, tuple) else (out,)
        for f in figs:
            if hasattr(f, "layout"):
                panels_plotly(c, sheet, f, data)
            else:
                raise Mismatch(f"{c.where}{kind}: the plotly backend gave {type(f).__name__}")
        return
    c.true(f"{kind}: a figure of the wrong backend", not hasattr(out, "to_plotly_json"))
    fig = plt.gcf()
    axes = all_axes(fig)
    if kind in ("overM", "overD"):
        again, first = out
        c.true(f"{kind}: the second drawing goes on the axes given", again is first)
        ln = curves_of(first)
        c.true(f"{kind}: two curves drawn", len(ln) == 2)
        c.true(f"{kind}: the same curve twice", np.array_equal(ln[0].get_ydata(), ln[1].get_ydata()))
        ln[1].remove()
    if kind == "beam":
        c.true("plot_beam labels its axis", any(label(sheet["xword"], sheet["xunit"]) == a.get_xlabel() for a in axes))
    else:
        if kind == "envelopes":
            check_reaction_panels(c, m, axes, ux)
        if kind == "ratios":
            d = m.get("ratiosdict")
            for le in ("max", "min"):
                got = [a for a in axes if a.get_ylabel() == f"Reaction Ratio [{le}]"]
                c.true(f"a panel of the {le} reaction ratios", len(got) == 1)
                h = sorted((p.get_x() + p.get_width() / 2, p.get_height()) for p in got[0].patches)
                c.true(f"ratio bars {le}", np.allclose([y for _, y in h], [d[f"R{le}{i}"] for i in range(d["nsup"])]))
        if kind == "tendon":
            check_tendon(c, m, sheet, axes, ux)
        elif kind != "vehicle":
            panels_mpl(c, sheet, [a for a in axes], data, exact=kind != "moments")
    if kind == "state":
        check_state(c, m, out, ux, k)
    if kind in ("hinges", "collapse"):
        check_plastic(c, m, kind, axes[0])
    if kind == "patterns":
        check_patterns(c, m, sheet, axes[0])
    if kind == "section":
        check_section(c, m, axes[0])
    if kind == "static":
        check_static(c, m, axes, m.L * (k - 1) / 5.0, ux)
    if kind == "anim":
        pos = m.lazy["frame"][3]
        check_static(c, m, axes, pos, ux)
        lu = f" {ux['length']}" if ux["length"] else ""
        mt = re.fullmatch(rf"Front axle at x = ({NUM}){re.escape(lu)}", axes[0].get_title())
        c.true(f"the frame is titled {axes[0].get_title()!r}", bool(mt) and abs(float(mt.group(1)) - pos) <= 0.0501)
    if kind == "vehicle":
        check_vehicle(c, m, out, ux, sheet)
    if kind in ("reactions", "resultsR"):
        ax = out[1] if kind == "reactions" else out[1][-1]
        check_acts(c, m, sheet, ax)


def check_tendon(c, m, sheet, axes, us):
    lab = label("Tendon eccentricity", us["length"])
    got = [a for a in axes if a.get_ylabel().split("\n")[0] == lab]
    c.true(f"one panel labelled {lab!r} among {[a.get_ylabel() for a in axes]}", len(got) == 1)
    ax = got[0]
    n = len(m.b["spans"])
    big = max([0.01] + [abs(micro(d["e"])) for d in sheet["drape"]])
    ln = sorted(curves_of(ax), key=lambda q: q.get_xdata()[0])
    c.true("one tendon curve in every span", len(ln) == n)
    for i, q in enumerate(ln):
        for d in sheet["drape"][5 * i:5 * i + 5]:
            e = float(np.interp(micro(d["x"]), q.get_xdata(), visual(ax, q.get_ydata())))
            c(f"height of the tendon at x = {micro(d['x']):g} (below the centroid is down)", e, -micro(d["e"]), 1e-3 * big + 2e-6)
    xl = label(sheet["xword"], sheet["xunit"])
    c.true(f"a distance axis labelled {xl!r}", any(a.get_xlabel() == xl for a in axes))
    for t in axes[-1].texts:
        mt = re.fullmatch(rf"{NUM}(?:→{NUM})?(?: (.+))?", t.get_text())
        if mt:
            c.true(f"unit of {t.get_text()!r}", (mt.group(1) or "") in (us["force"], us["moment"], us["dist"], us["length"]))


def check_plastic(c, m, kind, ax):
    r = m.get("moments")
    L = m.L
    offs = [np.asarray(s.get_offsets(), float) for s in ax.collections]
    if kind == "hinges":
        want = sorted((round(e.location / L, 6), round(e.load_factor, 6)) for e in r.hinge_events
                      if e.event_type in ("initial_yield", "plastic_hinge"))
        got = sorted((round(float(x) / L, 6), round(float(y), 6)) for o in offs for x, y in o)
        c.true(f"hinge events drawn {got} for {want}", len(got) == len(want) and np.allclose(np.array(got), np.array(want), atol=2e-6))
        return
    d = np.asarray(r.final_displacements, float)
    x = np.asarray(r.node_coords, float)
    ln = [q for q in curves_of(ax) if len(q.get_xdata()) == len(x)]
    c.true("one deflected shape", len(ln) == 1)
    y = visual(ax, ln[0].get_ydata())
    v = d[0:2 * len(x):2]
    if np.max(np.abs(v)) > 0:
        k = float(np.dot(y, v) / np.dot(v, v))
        c.true("the shape drawn is the displacement to some positive scale", k > 0 and np.allclose(y, k * v, atol=1e-9 * np.max(np.abs(y))))
    hinges = sorted({round(e.location / L, 9) for e in r.hinge_events if e.event_type == "plastic_hinge"})
    sets = [o for o in offs if len(o) == len(hinges) and np.allclose(sorted(o[:, 0] / L), hinges, atol=1e-6)
            and np.allclose(o[:, 1], np.interp(o[:, 0], x, np.asarray(ln[0].get_ydata(), float)), atol=1e-9 * L)]
    c.true("every plastic hinge is a dot on the shape", not hinges or len(sets) >= 1)


def check_patterns(c, m, sheet, ax):
    from matplotlib.collections import PolyCollection
    from matplotlib.colors import to_rgba

    L = m.L
    loud = to_rgba("C0")[:3]
    rows = {}
    for col in ax.collections:
        if isinstance(col, PolyCollection):
            on = tuple(col.get_facecolor()[0][:3]) == loud
            for path in col.get_paths():
                v = path.vertices
                j = int(round((v[:, 1].min() + v[:, 1].max()) / 2))
                if on:
                    rows.setdefault(j, []).append((v[:, 0].min(), v[:, 0].max()))
    names = [t.get_text() for t in ax.get_yticklabels()]
    c.equal("the load cases named", names, [f"case {i}" for i in range(len(m.raw))])
    for j, bars in enumerate(sheet["bars"]):
        c.stats["cmp"] += 1
        marks = sorted({micro(b[k]) for b in bars for k in ("x0", "x1")} | {0.0, L} | {float(x) for b in rows.get(j, []) for x in b})
        for a, b in zip(marks, marks[1:]):
            if b - a < 1e-6 * L:
                continue
            x = (a + b) / 2
            want = any(micro(r["x0"]) < x < micro(r["x1"]) for r in bars)
            got = any(p < x < q for p, q in rows.get(j, []))
            c.true(f"load case {j} at x = {x:g}: shaded {got}, loaded {want} (loads {m.rows[j]})", got == want)


def check_section(c, m, ax):
    s = m.get("section")
    c.equal("axes of the section", (ax.get_xlabel(), ax.get_ylabel()), ("distance along span (local)", "EI"))
    lim = ax.get_xlim()
    ln = [q for q in ax.get_lines() if len(q.get_xdata()) >= 2 and q.get_linestyle() == "-"]
    end = max(float(q.get_xdata()[-1]) for q in ln)
    for q in ln:
        x, y = np.asarray(q.get_xdata(), float), np.asarray(q.get_ydata(), float)
        if abs(x[-1] - x[0]) < 1e-9 * end:
            continue
        mid = 0.5 * (x[:-1] + x[1:])
        inner = x[1:-1] if len(x) > 2 else mid
        want = np.array([float(s(t)) for t in inner])
        have = y[1:-1] if len(x) > 2 else 0.5 * (y[:-1] + y[1:])
        c.true("the section drawn is the section", np.allclose(have, want, rtol=1e-6))
    for t in np.linspace(0.03, 0.97, 7) * end:
        c.true(f"the section is drawn at {t:g}", any(q.get_xdata()[0] - 1e-9 <= t <= q.get_xdata()[-1] + 1e-9 for q in ln))
    c.true("the whole section is in view", lim[0] <= 1e-9 and lim[1] >= end - 1e-9)
    c.true("rigidity is drawn from zero up", ax.get_ylim()[0] == 0.0)


def check_state(c, m, ax, us, k):
    """where it has yielded, on the line of the beam, and what stood on it then"""
    r = m.get("moving" if k % 3 else "moments")
    L = m.L
    offs = [np.asarray(s.get_offsets(), float) for s in ax.collections]
    want = sorted(round(e.location / L, 6) for e in r.hinge_events if e.event_type in ("initial_yield", "plastic_hinge"))
    got = sorted(round(float(x) / L, 6) for o in offs for x, _ in o)
    c.true(f"yielded places drawn {got} for {want}", len(got) == len(want) and np.allclose(got, want, atol=2e-6))
    c.true("the beam from end to end", any(np.allclose(q.get_xdata(), [0.0, L]) for q in ax.get_lines() if len(q.get_xdata()) == 2))
    if k % 3 == 0:
        c.true("no vehicle was given", not arrows_of(ax))
        return
    front = r.collapse_lambda
    xs = [(front - a, w) for a, w in zip((0.0, 0.11 * L, 0.18 * L), ("60", "60", "45"))]
    if all(abs(x) > 1e-7 * L and abs(x - L) > 1e-7 * L for x, _ in xs):
        on = [(x, w) for x, w in xs if 0 <= x <= L]
        a = arrows_of(ax)
        c.true("an arrow down at every axle on the beam", len(a) == len(on) and all(t[1] > h[1] for h, t in a)
               and np.allclose(sorted(h[0] for h, _ in a), sorted(x for x, _ in on), atol=1e-9 * L))
        words = sorted((round(float(t.get_position()[0]) / L, 6), t.get_text()) for t in ax.texts if t.get_text())
        c.equal("axle weights written", [t for _, t in words], [w for _, w in sorted(on)])
    lu = f" {us['length']}" if us["length"] else ""
    mt = re.fullmatch(rf"Vehicle at (collapse|final): front axle x = ({NUM}){re.escape(lu)}", ax.get_title())
    c.true(f"titled {ax.get_title()!r}", bool(mt) and (mt.group(1) == "collapse") == bool(r.collapsed)
           and abs(float(mt.group(2)) - front) <= 0.0501)


def check_static(c, m, axes, pos, us):
    coords = [pos, pos - 0.11 * m.L, pos - 0.18 * m.L]
    ax = axes[0]
    wheels = sorted(round((p.center[0]) / m.L, 6) for p in ax.patches if p.get_gid() == "vehicle_wheel")
    c.true(f"wheels at {wheels}", np.allclose(wheels, sorted(x / m.L for x in coords), atol=1e-6))
    heads = sorted(h[0] / m.L for h, t in arrows_of(ax) if abs(h[0] - t[0]) < 1e-9 * m.L and t[1] > h[1])
    edge = [x for x in coords if abs(x) < 1e-7 * m.L or abs(x - m.L) < 1e-7 * m.L]
    want = sorted(x / m.L for x in coords if 0 <= x <= m.L)
    if not edge:
        c.true(f"axle loads drawn at {heads}, the axles on the deck are at {want}",
               len(heads) == len(want) and np.allclose(heads, want, atol=1e-6))
    check_vehicle_words(c, [t.get_text() for t in ax.texts], us)


def check_vehicle(c, m, ax, us, sheet):
    fu = f" {us['force']}" if us["force"] else ""
    xs = [0.0, 0.11 * m.L, 0.18 * m.L]
    got = sorted((round(float(t.get_position()[0]), 9), t.get_text()) for t in ax.texts if t.get_text())
    c.equal("axle weights written", [s for _, s in got], [f"60{fu}", f"60{fu}", f"45{fu}"])
    c.true(f"their places {got}", np.allclose([x for x, _ in got], xs, atol=1e-8 * m.L))
    a = arrows_of(ax)
    c.true("an arrow at every axle, pointing down", len(a) == 3 and all(t[1] > h[1] for h, t in a)
           and np.allclose(sorted(h[0] for h, _ in a), xs, atol=1e-9 * m.L))
    c.true("the lighter axle has the shorter arrow", max(a, key=lambda p: p[0][0])[1][1] < min(a, key=lambda p: p[0][0])[1][1])
    wb = 0.18 * m.L
    lu = f" {us['length']}" if us["length"] else ""
    title = ax.get_title()
    mt = re.search(rf"ΣW = 165{re.escape(fu)}, wheelbase = ({NUM}){re.escape(lu)}\)?$", title)
    c.true(f"caption {title!r}", bool(mt) and abs(float(mt.group(1)) - wb) < 1e-4 * wb)
    c.equal("axis of the vehicle", ax.get_xlabel(), label(sheet["xword"], sheet["xunit"]))


def check_reaction_panels(c, m, axes, us):
    e = m.get("drawn")
    ru = f" ({us['force']}/{us['moment']})" if us["force"] and us["moment"] else ""
    if e is m.get("traverse"):
        pos = m.get("bridge").pos
        for i in range(e.nsup):
            got = [a for a in axes if a.get_ylabel() == f"Reaction {i + 1}{ru}"]
            c.true(f"one panel for reaction {i + 1}", len(got) == 1)
            ln = curves_of(got[0])
            c.true(f"reaction {i + 1}: two histories", len(ln) == 2)
            for ln_, row in zip(ln, (e.Rmax[i], e.Rmin[i])):
                c.true(f"reaction {i + 1} as stored", np.array_equal(ln_.get_ydata(), row) and np.allclose(ln_.get_xdata(), pos))
            marks = [t for t in got[0].texts if t.get_text()]
            top, low = e.Rmax[i].max(), e.Rmin[i].min()
            c.true(f"reaction {i + 1}: the extremes {top:.3g}, {low:.3g} are written",
                   {f"{top:.3g}", f"{low:.3g}"} <= {t.get_text() for t in marks})
        c.true("position axis", any(a.get_xlabel() == label("Position of Front Axle", us["length"]) for a in axes))
    else:
        for le in ("max", "min"):
            got = [a for a in axes if a.get_ylabel() == f"Reactions [{le}]{ru}"]
            c.true(f"a panel of the {le} reactions", len(got) == 1)
            h = sorted((p.get_x() + p.get_width() / 2, p.get_height()) for p in got[0].patches)
            c.true(f"reaction bars {le}", np.allclose([y for _, y in h], getattr(e, f"R{le}val")))


def replay(label_, states, stats):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    import pycba
    from pycba import plotting, units as U

    U.set_units("si")
    plotting.set_backend("matplotlib")
    m = Model(states[0])
    ref = {}
    hist = []
    try:
        for st in states[1:]:
            call = st["call"]
            name = call["name"]
            hist.append((name, call["kind"] or call["back"] or call["k"], call["over"]))
            stats["actions"][name if name != "draw" else "draw_" + call["kind"]] = \
                stats["actions"].get(name if name != "draw" else "draw_" + call["kind"], 0) + 1
            c = Cmp(stats, f"{beam_repr(states[0])} after {hist[-4:]}: ")
            if name == "units":
                k, style = call["k"], call["style"]
                before = m.state()
                if k < 18:
                    arg = styled(aliases()[k][0], style) if aliases()[k][0] else ["", " "][style % 2]
                    got = pycba.set_units(arg)
                    c.true("set_units returns the system now in force", got is pycba.get_units())
                elif k == 18:
                    pycba.set_units(system(5))
                else:
                    try:
                        pycba.set_units(styled(unknown()[k - 100], style))
                    except KeyError:
                        pass
                    else:
                        raise Mismatch(f"{c.where}unit system {unknown()[k - 100]!r} should be refused with KeyError")
                c.true("setting units changed stored numbers", alike(before, m.state()))
            elif name == "backend":
                arg = call["back"].title() if call["style"] else call["back"]
                try:
                    pycba.set_backend(arg)
                    c.true(f"backend {arg!r} should be refused", call["ok"])
                except ValueError:
                    c.true(f"backend {arg!r} should be accepted", not call["ok"])
            elif name == "analyse":
                k = call["k"]
                m.ba.set_loads(m.rows[k]) if hasattr(m.ba, "set_loads") else setattr(m.ba.beam, "loads", m.rows[k])
                c.true("analysis of a stable beam", m.ba.analyze() == 0)
                s = snapshot(m.ba.beam_results)
                if k not in ref:
                    fresh = make_analysis(m.b, st["loads"][k])
                    dflt, back = U._default, plotting._default_backend
                    U.set_units("si")
                    fresh.analyze()
                    U.set_units(dflt)
                    ref[k] = snapshot(fresh.beam_results)
                c.true("the numbers depend on the display settings", same(s, ref[k]))
            elif name == "draw" and st["sheet"]["fails"] != "unusable":
                draw(c, m, st)
                plt.close("all")
            u = spec_units(st["dflt"])
            g = pycba.get_units()
            c.equal("the unit system in force",
                    (g.force, g.length, g.moment, g.distributed, g.disp_label, round(g.disp_scale * 1e6)),
                    (u["force"], u["length"], u["moment"], u["dist"], u["disp"], u["scale"]))
            c.equal("the backend in force", pycba.get_backend(), st["back"])
    finally:
        plt.close("all")
        U.set_units("si")
        plotting.set_backend("matplotlib")
