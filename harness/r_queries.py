"""Replay of queries.qnt: point queries, exports, station grids, shear sections."""
import os
import tempfile

import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, lm_of, make_analysis
from r_elastic import beam_repr, conflicting_spring, fx, quadrature_tol


def replay(label, states, stats, rel=1e-6, relD=1e-2):
    from pycba.results import Envelopes

    ba = make_analysis(states[0]["beam"], [])
    for st in states:
        stats["actions"]["analyze+query"] = stats["actions"].get("analyze+query", 0) + 1
        b = st["beam"]
        if not st["sol"]["ok"]:
            return
        c = Cmp(stats, f"{beam_repr(st)} loads {lm_of(st['lm'])} npts asked {st['asked']} (in force {st['npts']}): ")
        ba.set_loads(lm_of(st["lm"]))
        ba.shear_points = {i: [micro(x) for x in xs] for i, xs in enumerate(st["shear"]) if xs} or None
        try:
            ba.analyze(st["asked"] or None)
        except ValueError:
            if conflicting_spring(st):
                continue
            raise
        br = ba.beam_results
        n = st["npts"]
        Ls = [micro(s["L"]) for s in b["spans"]]
        x0 = 0.0
        for i, v in enumerate(br.vRes):
            ns = len(st["shear"][i]) if i < len(st["shear"]) else 0
            c.equal(f"member {i + 1} number of stations", len(v.x), n + 3 + 2 * ns)
            c.true(f"member {i + 1} stations do not span the member",
                   abs(v.x[0] - x0) < 1e-9 and abs(v.x[1] - x0) < 1e-9 and abs(v.x[-1] - x0 - Ls[i]) < 1e-9
                   and abs(v.x[-2] - x0 - Ls[i]) < 1e-9 and bool(np.all(np.diff(v.x) >= 0)))
            grid = x0 + Ls[i] * np.arange(n + 1) / n
            dist = np.abs(v.x[None, :] - grid[:, None]).min(axis=1)
            c.true(f"member {i + 1} uniform stations missing", bool(dist.max() < 1e-9 * Ls[i]))
            for q in ("M", "V", "R", "D"):
                arr = getattr(v, q)
                c.true(f"member {i + 1} {q} does not close at the ends", abs(arr[0]) < 1e-9 and abs(arr[-1]) < 1e-9)
            x0 += Ls[i]
        # concatenation
        for q in ("x", "M", "V", "R", "D"):
            c.true(f"results.{q} is not the members' arrays in order",
                   np.array_equal(getattr(br.results, q), np.concatenate([getattr(v, q) for v in br.vRes])))
        F = 1 + max(abs(fx(x)) for x in st["sol"]["react"]) + sum(abs(micro(r[2])) * 10 for r in st["lm"] if r[1] != 6)
        M = F * max(Ls)
        # extra shear sections: exact on either side
        x0s = np.concatenate([[0.0], np.cumsum(Ls)])
        for p in st["pairs"]:
            xs = x0s[p["i"]] + micro(p["x"])
            v = br.vRes[p["i"]]
            near = [k for k in range(1, len(v.x) - 1) if abs(v.x[k] - xs) < 3e-9 * Ls[p["i"]]]
            lo = [k for k in near if v.x[k] < xs - 0.2e-9 * Ls[p["i"]]]
            hi = [k for k in near if v.x[k] > xs + 0.2e-9 * Ls[p["i"]]]
            c.true(f"no station pair around the shear section at {xs:g}", bool(lo) and bool(hi))
            c(f"V just left of {xs:g}", v.V[lo[0]], pico(p["vl"]), 1e-6 * F)
            c(f"V just right of {xs:g}", v.V[hi[-1]], pico(p["vr"]), 1e-6 * F)
        # point queries; with shear sections the grid is no longer uniform
        D = 1e-6 + max([abs(fx(x)) for x in st["sol"]["node"]] + [abs(pico(q["lo0"][3])) for q in st["qs"]] + [float(np.abs(br.results.D).max())])
        T = 1e-6 + float(np.abs(br.results.R).max())
        tolT, tolD = zip(*(quadrature_tol({"beam": b, "lm": st["lm"]}, i, n, relD, T, D, M, F) for i in range(len(Ls))))
        tolT = [max(tolT)] * len(Ls)  # a query at a joint reads the arriving member
        tolD = [max(tolD)] * len(Ls)
        for q in st["qs"]:
            f = q["f"] / 4
            X = x0s[q["i"]] + Ls[q["i"]] * (q["k"] + f) / n
            if any(st["shear"][k] for k in range(len(b["spans"]))):
                # only exact stations are predictable
                if q["f"] not in (0, 4):
                    continue
            got = ba.at(X)
            c.equal("at() keys", sorted(got), ["D", "M", "R", "V"])
            for k, (nm, tol) in enumerate((("M", rel * M), ("V", rel * F), ("R", tolT[q["i"]]), ("D", tolD[q["i"]]))):
                if k >= 2 and n < 100:
                    continue
                lo = (1 - f) * min(pico(q["lo0"][k]), pico(q["hi0"][k])) + f * min(pico(q["lo1"][k]), pico(q["hi1"][k]))
                hi = (1 - f) * max(pico(q["lo0"][k]), pico(q["hi0"][k])) + f * max(pico(q["lo1"][k]), pico(q["hi1"][k]))
                c.between(f"at({X!r})[{nm}]", got[nm], lo, hi, tol)
            one = ba.at(X, attrs=("V",))
            c.true("at() with one quantity", list(one) == ["V"] and one["V"] == got["V"])
            c.true("BeamResults.at differs", br.at(X)["M"] == got["M"])
        # exports
        df = ba.to_dataframe()
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "r.csv")
            ba.to_csv(path)
            head = open(path).readline().strip()
            csv = np.loadtxt(path, delimiter=",", skiprows=1)
        c.equal("csv header", head, "x,M,V,R,D")
        c.equal("dataframe columns", list(df.columns), ["x", "M", "V", "R", "D"])
        for k, q in enumerate(("x", "M", "V", "R", "D")):
            c.true(f"dataframe {q}", np.array_equal(np.asarray(df[q]), getattr(br.results, q)))
            c.true(f"csv {q}", csv.shape[0] == len(br.results.x) and np.allclose(csv[:, k], getattr(br.results, q), rtol=1e-12, atol=1e-15))
        xd, dd = br.deflection_curve()
        c.true("deflection curve", np.array_equal(xd, np.concatenate([v.x[1:-1] for v in br.vRes]))
               and np.array_equal(dd, np.concatenate([v.D[1:-1] for v in br.vRes])))
        env = Envelopes.from_beam_analysis(ba)
        c.true("envelope of one analysis", np.array_equal(env.Mmax, np.maximum(br.results.M, 0)) and np.array_equal(env.Mmin, np.minimum(br.results.M, 0))
               and np.array_equal(env.Vmax, np.maximum(br.results.V, 0)) and np.array_equal(env.Vmin, np.minimum(br.results.V, 0)))
    if stats["sample"] is None and len(states) > 3:
        stats["sample"] = {"beam": beam_repr(states[-1]), "loads": lm_of(states[-1]["lm"]), "queries at": [(q["i"] + 1, q["k"], q["f"]) for q in states[-1]["qs"]]}
