"""Replay of modal.qnt: natural frequencies and mode shapes of a beam."""
import math

import numpy as np

from core import Mismatch, micro, pico
from model import Cmp


def build(b, kind):
    import pycba

    L = [micro(x) for x in b["L"]]
    kw = {"L": L, "EI": [micro(x) for x in b["ei"]], "R": [(-1 if r < 0 else micro(r)) for r in b["rest"]],
          "D": [(0.004 if s else None) for s in b["dset"]]}
    if any(b["kf"]):
        kw["kf"] = [micro(k) or None for k in b["kf"]]
    if kind == "section":
        kw["EI"][-1] = pycba.SectionEI([("linear", [0, L[-1]], [1e4, 2e4])])
    elif kind == "shear":
        kw["GAv"] = [None] * (len(L) - 1) + [1e6]
    elif kind == "release":
        kw["eletype"] = [1] * (len(L) - 1) + ["FP"]
    return pycba.BeamAnalysis(**kw), kw


def replay(label, states, stats):
    ba, kw = build(states[0]["beam"], states[0]["kind"])
    hist = []
    for st in states[1:]:
        a, b = st["call"], st["beam"]
        name = a["name"]
        stats["actions"][name] = stats["actions"].get(name, 0) + 1
        hist.append((name, a["n"], a["nseg"], a["a"]))
        c = Cmp(stats, f"{kw} mass {[micro(m) for m in b['m']]} {hist}: ")
        mass = [micro(m) for m in b["m"]]
        if name == "resupport":
            R = list(ba.beam.restraints)
            k = 2 * a["a"][0]
            R[k:k + 2] = [(-1 if r < 0 else micro(r)) for r in b["rest"][k:k + 2]]
            ba.beam.restraints = R
            continue
        if name == "load":
            ba.add_pl(1, 55.0, micro(b["L"][0]) / 3)
            continue
        held = [[float(x) for x in r] for r in ba.beam.loads]
        try:
            if name == "ask_short":
                r = ba.modal(mass[:-1], n_modes=2)
            elif len(set(mass)) == 1 and a["n"] % 2:
                r = ba.modal(mass[0], n_modes=a["n"], nseg=a["nseg"])
            else:
                r = ba.modal(mass, n_modes=a["n"], nseg=a["nseg"])
        except (NotImplementedError, ValueError) as e:
            c.true(f"refused ({type(e).__name__}: {e})", not a["ok"])
            continue
        c.true("should be refused", a["ok"])
        c.equal("loads of the beam", [[float(x) for x in z] for z in ba.beam.loads], held)
        check(c, r, st, a, mass)


def check(c, r, st, a, mass):
    b, modes, nseg = st["beam"], st["modes"], a["nseg"]
    L = [micro(x) for x in b["L"]]
    n = a["n"]
    c.equal("number of modes", (r.n_modes, len(r.omega), len(r.f), len(r.periods)), (n,) * 4)
    exact = [math.sqrt(pico(m["w2"])) for m in modes]
    scale = next((w for w in exact if w > 0), 1.0)
    for k in range(n):
        w, e = float(r.omega[k]), exact[k]
        # a conforming mesh only ever stiffens; the excess follows from the wave length
        h4 = max((m * e * e / micro(ei)) * (l / nseg) ** 4 for m, ei, l in zip(mass, b["ei"], L))
        err = e * (2 * h4 / 720 + 2e-6) if e else 2e-3 * scale
        if e:
            c.between(f"omega[{k}]", w, e * (1 - 2e-6), e + err, 1e-9 * e)
        else:
            c(f"omega[{k}] of an unrestrained motion", w, 0.0, err)
        c(f"f[{k}]", r.f[k], w / (2 * math.pi), 1e-9 * max(w, 1e-9))
        if e:
            c(f"periods[{k}]", r.periods[k], 2 * math.pi / w, 1e-9 * 2 * math.pi / w)
    x, _ = r.mode_shape(0)
    want_x = np.concatenate([[0.0]] + [sum(L[:i]) + l * np.arange(1, nseg + 1) / nseg for i, l in enumerate(L)])
    c.true("mesh coordinates", len(x) == len(want_x) and np.allclose(x, want_x, atol=1e-9))
    c.equal("phi", r.phi.shape, (2 * len(want_x), n))
    q = nseg // 6
    ratio = max(m * 1.0 for m in mass) / min(mass)
    for k in range(n):
        _, v = r.mode_shape(k)
        c(f"largest ordinate of mode {k}", np.max(v), 1.0, 1e-9)
        c.true(f"mode {k} has an ordinate beyond its largest", np.max(np.abs(v)) <= 1 + 1e-9)
        ph = r.phi[:, k]
        m = np.max(np.abs(ph[0::2]))
        c.true(f"mode shape {k} is not the eigenvector", np.allclose(np.abs(ph[0::2]) / m, np.abs(v), atol=1e-9))
        for i in range(len(L) + 1):
            for d in range(2):
                if b["rest"][2 * i + d] < 0 or b["dset"][2 * i + d]:
                    c(f"mode {k} at held degree of freedom {2 * i + d}", ph[2 * i * nseg + d], 0.0, 1e-12 * m)
        e = exact[k]
        gap = min([abs(w / e - 1) for j, w in enumerate(exact) if j != k] or [1]) if e else 0
        if gap < 0.05:
            continue
        sh = np.array([pico(s) for s in modes[k]["shape"]])
        j = int(np.argmax(np.abs(sh)))
        got = v[::q]
        if abs(got[j]) < 0.2:
            raise Mismatch(f"{c.where}mode {k}: {np.round(got, 4).tolist()} at sixth points, expected along {np.round(sh / sh[j], 4).tolist()}")
        for i in range(len(sh)):
            c(f"mode {k} at sixth point {i}", got[i] / got[j], sh[i] / sh[j], 4e-3)
    # orthogonality of the shapes in the consistent mass
    M = np.zeros((len(want_x),) * 2)
    for i, l in enumerate(L):
        for s in range(nseg):
            z = i * nseg + s
            M[z:z + 2, z:z + 2] += mass[i] * l / nseg / 6 * np.array([[2, 1], [1, 2]])
    V = np.array([r.mode_shape(k)[1] for k in range(n)])
    G = V @ M @ V.T
    for i in range(n):
        for j in range(i):
            h = max(max((m * exact[z] ** 2 / micro(ei)) ** 0.25 * l / nseg for m, ei, l in zip(mass, b["ei"], L)) for z in (i, j))
            c(f"modes {i} and {j} in the mass", G[i, j] / math.sqrt(G[i, i] * G[j, j]), 0.0, 2e-3 + h * h / 4)
