"""Replay of plastic.qnt: elastic-plastic analyses up to collapse, and moving loads."""
import numpy as np

from core import Mismatch, micro, pico
from model import Cmp

CAP = 2e-6


def arguments(st):
    b = st["beam"]
    return dict(
        L=[micro(s["L"]) for s in b["spans"]],
        EI=[micro(s["ei"][0]["ys"][0]) for s in b["spans"]],
        R=[-1 if r else 0 for r in b["rest"]],
        Mp=[micro(m) for m in st["cap"]["mp"]],
        My=[micro(m) for m in st["cap"]["my"]],
        q=micro(st["cap"]["hard"]),
        mesh_size=micro(st["mesh"]),
    )


def rows(lm):
    return [[r[0], r[1]] + [micro(x) for x in r[2:]] for r in lm]


def vec(c, what, got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    c.equal(what + ": count", got.shape, want.shape)
    c.stats["cmp"] += got.size
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        j = int(np.flatnonzero(bad)[0])
        raise Mismatch(f"{what} [{j}]: got {got[j]!r}, expected {want[j]!r} (tolerance {tol:.3g})")


class Statics:
    """Equilibrium and capacity of node moments, as the specification lays them down."""

    def __init__(self, st, c):
        g = st["line"]
        self.c, self.x, self.sup = c, np.array([micro(x) for x in g["x"]]), g["sup"]
        self.mp, self.my = (np.array([pico(m) / 1e28 for m in g[k]]) for k in ("mp", "my"))
        self.free, self.fixed = g["free"], g["fixed"]
        self.hard = st["cap"]["hard"] > 0

    def admissible(self, what, m, m0):
        """m in equilibrium with the load whose simple-span moments are m0, and within capacity"""
        m, m0 = np.asarray(m, float), np.asarray(m0, float)
        tol = 1e-6 * (np.max(np.abs(m0)) + np.max(self.mp))
        self.c.equal(what + ": nodes", len(m), len(self.x))
        n = len(self.sup) - 1
        for i in range(n):
            s, e = self.sup[i], self.sup[i + 1]
            tip = (i == 0 and self.free[0]) or (i == n - 1 and self.free[1])
            t = (self.x[s : e + 1] - self.x[s]) / (self.x[e] - self.x[s])
            want = m0[s : e + 1] + 0.0
            if not tip:
                # m0 over a support may be that of a tip beyond it
                want[0] = want[-1] = 0.0
                want = want + (1 - t) * m[s] + t * m[e]
            vec(self.c, f"{what}: moments in span {i + 1} against equilibrium", m[s : e + 1], want, tol)
        for j, clamp in ((0, self.fixed[0]), (-1, self.fixed[1])):
            if not clamp:
                self.c(f"{what}: moment at an end that is free to turn", m[j], 0.0, tol)
        if not self.hard:
            over = float(np.max(np.abs(m) / self.mp))
            if over > 1 + CAP:
                raise Mismatch(f"{what}: a moment is {over:.9f} of its capacity")


def pic(l):
    return np.array([pico(v) for v in l])


def check_static(c, n, st, first):
    a, s = st["call"], st["stat"]
    z = Statics(st, c)
    lam_max, lam_y, lam_c = pico(a["lamMax"]), pico(s["lamY"]), pico(s["lamC"])
    m0, el = pic(s["m0"]), pic(s["el"])
    r = n.analyze(rows(st["lm"]), lambda_max=lam_max, record_every=1)
    scale = float(np.max(np.abs(el))) or 1.0
    vec(c, "node coordinates", r.node_coords, z.x, 1e-9 * z.x[-1])
    vec(c, "supports", r.support_coords, z.x[z.sup], 1e-9 * z.x[-1])
    lam = r.collapse_lambda
    if not z.hard and abs(lam_c - lam_max) > 1e-5 * lam_max:
        c.equal(f"collapses before load factor {lam_max:g} (limit load factor {lam_c:.7g}, got {lam:.7g})", bool(r.collapsed), lam_c < lam_max)
        c("collapse load factor" if r.collapsed else "final load factor", lam, min(lam_c, lam_max), 2e-5 * lam)
    elif not r.collapsed:
        c("final load factor", lam, lam_max, 1e-9 * lam_max)
    hist = list(zip(r.lambda_history, r.moment_history)) + [(lam, r.final_moments)]
    prev = 0.0
    for k, (x, m) in enumerate(hist):
        if x < prev - 1e-9 or x > lam_max * (1 + 1e-9):
            raise Mismatch(f"load factor {x} after {prev}, up to {lam_max}")
        prev = x
        if k % 7 == 0 or k > len(hist) - 40 or x > 0.9 * lam_y and x < 1.3 * lam_y:
            z.admissible(f"at load factor {x:.6g}", m, x * m0)
        if x <= lam_y * (1 - 1e-9):
            vec(c, f"elastic moments at load factor {x:.6g}", m, x * el, 2e-6 * x * scale)
    if lam_max < lam_y * (1 - 1e-6):
        d = np.asarray(r.final_displacements)
        for what, got, want in (("deflections", d[0::2], pic(s["v"])), ("rotations", d[1::2], pic(s["t"]))):
            vec(c, "elastic " + what, got, lam * want, 2e-6 * lam * (np.max(np.abs(want)) + 1e-12))
    events(c, z, r, lam_y, lam_max, el, lam)
    softening(c, z, r, micro(st["cap"]["hard"]))
    if first and not z.hard and lam < 3:
        # a load factor is just that: loads scaled by k collapse at 1/k of it
        k = 2.5
        r2 = n.analyze([[q[0], q[1], k * q[2]] + q[3:] for q in rows(st["lm"])], lambda_max=lam_max / k)
        c.equal("collapses under loads scaled", r2.collapsed, r.collapsed)
        c("load factor under loads scaled", k * r2.collapse_lambda, lam, 4e-5 * lam)


def softening(c, z, r, q):
    """What is left of the stiffness at each element end, after the rule of My < M < Mp."""
    peak = np.max(np.abs(np.array(list(r.moment_history) + [r.final_moments])), axis=0)
    for j, m in enumerate(np.abs(r.final_moments)):
        g, gy = m / z.mp[j], z.my[j] / z.mp[j]
        if min(abs(g - 1), abs(g - gy)) < 1e-6:
            continue
        left = 1.0 if g < gy else q if g > 1 else 1.0 - (g - gy) / (1.0 - gy) * (1.0 - q)
        got = r.final_R[max(0, j - 1), 1 if j > 0 else 0]
        if m < peak[j] * (1 - 1e-7) and got == 1.0:
            continue  # unloads elastically
        c(f"stiffness left at node {j}, at {g:.6g} of its plastic moment", got, left, 1e-5)


def events(c, z, r, lam_y, lam_max, el, lam):
    yields = [e for e in r.hinge_events if e.event_type == "initial_yield"]
    hinges = [e for e in r.hinge_events if e.event_type == "plastic_hinge"]
    c.equal("event types", len(yields) + len(hinges), len(r.hinge_events))
    if lam_y > lam_max * (1 + 1e-6):
        c.equal("events in the elastic range", len(r.hinge_events), 0)
    elif lam_y < lam_max * (1 - 1e-6):
        if not yields:
            raise Mismatch(f"no yield recorded although the first yields at {lam_y}")
        c("load factor of first yield", yields[0].load_factor, lam_y, 2e-6 * lam_y)
        j = yields[0].node_index
        c("yield ratio where the first yield is reported", lam_y * abs(el[j]) / z.my[j], 1.0, 2e-6)
    for e in r.hinge_events:
        c(f"location of node {e.node_index}", e.location, z.x[e.node_index], 1e-9 * z.x[-1])
        if not lam_y * (1 - 2e-6) <= e.load_factor <= lam * (1 + 1e-9):
            raise Mismatch(f"{e.event_type} at load factor {e.load_factor}, outside [{lam_y}, {lam}]")
    for h in hinges:
        y = [e for e in yields if e.node_index == h.node_index]
        if not y or y[0].load_factor > h.load_factor:
            raise Mismatch(f"plastic hinge at node {h.node_index} without an earlier yield")
    for what, l in (("yields", yields), ("hinges", hinges)):
        c.equal(f"nodes reported twice among {what}", len({e.node_index for e in l}), len(l))
        c.equal(f"{what} in order", [e.load_factor for e in l], sorted(e.load_factor for e in l))


def vehicle_args(a):
    import pycba

    w, back = [micro(x) for x in a["w"]], [micro(x) for x in a["back"]]
    if len(w) == 1 and a["sub"] == 1:
        return dict(P=w[0])
    return dict(vehicle=pycba.Vehicle(axle_spacings=np.diff(back), axle_weights=np.array(w)))


def check_drive(c, n, st):
    a, trip = st["call"], st["trip"]
    z = Statics(st, c)
    r = n.analyze_moving(**vehicle_args(a), step=micro(a["d"]), n_sub=a["sub"], record_every=1)
    xs = np.array([micro(p["x"]) for p in trip])
    falls = next((k for k, p in enumerate(trip) if not p["stands"]), None)
    edge = any(p["edge"] for p in trip[: (len(trip) if falls is None else falls + 1)])
    if not z.hard and not edge:
        c.equal(f"collapses on the way (must at position {falls})", bool(r.collapsed), falls is not None)
        c("front axle at collapse" if r.collapsed else "last position", r.collapse_lambda, xs[-1 if falls is None else falls], 1e-9 * xs[-1])
    # positions completed
    done = len(r.lambda_history)
    vec(c, "positions", r.lambda_history, xs[:done], 1e-9 * xs[-1])
    if not r.collapsed:
        c.equal("positions recorded", done, len(xs))
    fresh = True
    for p, m in zip(trip, r.moment_history):
        what = f"front axle at {micro(p['x']):g}"
        z.admissible(what, m, pic(p["m0"]))
        fresh = fresh and not p["yields"]
        if fresh:
            vec(c, what + ": elastic moments", m, pic(p["el"]), 2e-6 * (np.max(np.abs(pic(p["el"]))) + 1e-6 * np.max(z.mp)))
    if fresh and not r.collapsed:
        c.equal("events of a vehicle that stays elastic", len(r.hinge_events), 0)
    first = next((k for k, p in enumerate(trip) if p["yields"]), None)
    for e in r.hinge_events:
        if first is None or e.load_factor < xs[first] - 1e-9:
            raise Mismatch(f"{e.event_type} with the front axle at {e.load_factor}, where nothing yields yet")
        c(f"location of node {e.node_index}", e.location, z.x[e.node_index], 1e-9 * z.x[-1])
    if not r.collapsed:
        vec(c, "final moments", r.final_moments, r.moment_history[-1], 1e-9 * np.max(z.mp))


def refused(n, st):
    """One thing the analysis does not cover: it has to say so."""
    import pycba
    from pycba.nonlinear import NonlinearBeamAnalysis as N

    k = st["call"]["kind"]
    kw = arguments(st)
    ns = len(kw["L"])
    change = {
        3: dict(R=[1e6 if i == 0 else r for i, r in enumerate(kw["R"])]),
        4: dict(R=kw["R"][:2] + [-1, -1] + kw["R"][2:], L=kw["L"][:1] + kw["L"],
                EI=kw["EI"][:1] + kw["EI"], Mp=kw["Mp"][:1] + kw["Mp"], My=kw["My"][:1] + kw["My"]),
        5: dict(My=[1.05 * m for m in kw["Mp"]]),
        6: dict(Mp=kw["Mp"] + [100.0]),
        7: dict(R=kw["R"] + [-1, 0]),
        8: dict(R=[0, 0] + [-1, 0] + [0] * (2 * ns - 2)),
        9: dict(EI=[pycba.SectionEI().add_segment("linear", [0.0, kw["L"][0]], [1e4, 2e4])] + kw["EI"][1:]),
        11: dict(EI=kw["EI"] + [1e4]),
    }
    call = {
        0: lambda: n.analyze([[1, 5, 10.0, 20.0]]),
        1: lambda: n.analyze([[ns + 1, 1, 10.0]]),
        2: lambda: n.analyze([[1, 2, 10.0, kw["L"][0] * 1.01]]),
        10: lambda: n.analyze_moving(),
    }.get(k) or (lambda: N(**{**kw, **change[k]}))
    try:
        call()
    except TypeError:
        if k == 9:
            return
        raise
    except ValueError:
        if k != 9:
            return
        raise
    raise Mismatch(f"unsupported input (kind {k}) was accepted")


def replay(label, states, stats, only=("analyse", "drive")):
    from pycba.nonlinear import NonlinearBeamAnalysis as N

    c = Cmp(stats)
    n = N(**arguments(states[0]))
    first = True
    for k, st in enumerate(states[1:], 1):
        name = st["call"]["name"]
        try:
            if name == "analyse" and "analyse" in only:
                check_static(c, n, st, first)
                first = False
            elif name == "drive" and "drive" in only:
                check_drive(c, n, st)
            elif name == "drive":
                # analyses leave nothing behind on the beam
                n.analyze_moving(**vehicle_args(st["call"]), step=3.0, n_sub=1)
            elif name == "refuse":
                refused(n, st)
            stats["actions"][name] = stats["actions"].get(name, 0) + 1
        except Mismatch as e:
            raise Mismatch(f"state {k}, {name}: {e}; beam {arguments(st)}, loads {rows(st['lm'])}, call {st['call']}") from None
