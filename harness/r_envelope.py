"""Replay of envelope.qnt on real Envelopes built from real BeamResults objects
whose station values are overwritten with the specification's integers."""
import os
import tempfile
from copy import deepcopy

import numpy as np

from core import Mismatch
from model import Cmp
from r_lifecycle import expect_refusal

ATTR = {"mmax": "Mmax", "mmin": "Mmin", "vmax": "Vmax", "vmin": "Vmin", "vcomax": "Vco_Mmax", "vcomin": "Vco_Mmin",
        "mcomax": "Mco_Vmax", "mcomin": "Mco_Vmin", "rmax": "Rmax", "rmin": "Rmin", "rmaxv": "Rmaxval", "rminv": "Rminval"}


def base_results(n=4, R=None):
    import pycba

    ba = pycba.BeamAnalysis([4.0, 4.0], 1e4, R or [-1, 0] * 3)
    ba.set_loads([[1, 1, 1.0]])
    ba.analyze(n)
    return ba


def real_result(base, r):
    br = deepcopy(base)
    k = 0
    for v in br.vRes:
        n = len(v.x)
        v.M[:] = r["m"][k:k + n]
        v.V[:] = r["v"][k:k + n]
        k += n
    br.results.M[:] = r["m"]
    br.results.V[:] = r["v"]
    br.R = np.array(r["r"], dtype=float)
    return br


def check_env(c, name, env, want):
    for a, b in ATTR.items():
        got = np.asarray(getattr(env, b), dtype=float)
        w = np.asarray(want[a], dtype=float)
        c.true(f"{name}.{b}: got {got.tolist()}, expected {w.tolist()}", got.shape == w.shape and np.array_equal(got, w))
    c.equal(f"{name}.nres", env.nres, want["nres"])


def replay(label, states, stats):
    import pycba
    from pycba.results import Envelopes

    ba = base_results()
    base = ba.beam_results
    odd = [Envelopes([base_results(*k).beam_results]) for k in
           ((6,), (4, [-1, 0, 0, 0, -1, 0]), (4, [-1, -1, 0, 0, 0, 0]), (5, [-1, 0, -1, 0, -1, -1]))]
    x = states[0]
    pool = [real_result(base, r) for r in x["pool"]]
    pool_before = [deepcopy((p.results.M, p.results.V, p.R)) for p in pool]
    regs = [Envelopes([pool[i] for i in e["of"]]) for e in x["regs"]]
    hist = []
    for st in states:
        name, a = st["call"]["name"], st["call"]["a"]
        hist.append((name, a))
        stats["actions"][name] = stats["actions"].get(name, 0) + 1
        c = Cmp(stats, f"history {hist[1:]}: ")
        if name == "make":
            regs[a[0]] = Envelopes([pool[k] for k in a[1:]])
        elif name == "augment":
            regs[a[0]].augment(regs[a[1]])
        elif name == "sum":
            regs[a[0]].sum(regs[a[1]])
        elif name.startswith("combine"):
            mode = name.split("_")[1]
            new = Envelopes.combine([regs[k] for k in a[1:]], mode=mode) if mode == "sum" or a[0] == 0 \
                else Envelopes.combine([regs[k] for k in a[1:]])
            c.true("combine returned an operand", all(new is not r for r in regs))
            regs[a[0]] = new
        elif name == "plus":
            regs[a[0]] = regs[a[1]] + regs[a[2]]
        elif name == "or":
            regs[a[0]] = regs[a[1]] | regs[a[2]]
        elif name == "zero_like":
            regs[a[0]] = Envelopes.zero_like(regs[a[1]])
        elif name == "refused":
            o = odd[a[2]]
            what, fn = [
                ("combine of nothing", lambda: Envelopes.combine([])),
                ("unknown combine mode", lambda: Envelopes.combine(regs[:2], mode="both")),
                ("augment by an inconsistent envelope", lambda: regs[a[1]].augment(o)),
                ("sum with an inconsistent envelope", lambda: regs[a[1]].sum(o)),
                ("enclosing combine with an inconsistent envelope", lambda: Envelopes.combine([regs[a[1]], o])),
                ("summing combine with an inconsistent envelope", lambda: Envelopes.combine([regs[a[1]], o], mode="sum")),
                ("inconsistent a | b", lambda: o | regs[a[1]]),
                ("inconsistent a + b", lambda: regs[a[1]] + o),
            ][a[0]]
            expect_refusal(c, f"{what} ({a[2]})", fn)
        elif name == "at":
            env = regs[a[0]]
            for p in st["probe"]:
                got = env.at(p["x"] / 4)
                for k, b in (("mmax", "Mmax"), ("mmin", "Mmin"), ("vmax", "Vmax"), ("vmin", "Vmin")):
                    c(f"at({p['x'] / 4:g})[{b}]", got[b], p[k] / 4, 1e-9)
                only = env.at(p["x"] / 4, attrs=("Vmin",))
                c.equal("at() keys on request", list(only), ["Vmin"])
            w = st["regs"][a[0]]
            for k, b in (("mmax", "Mmax"), ("vmin", "Vmin")):
                for red, f in (("auto", max if b.endswith("max") else min), ("max", max), ("min", min)):
                    got = list(np.asarray(env.per_span(b, reduce=red), dtype=float))
                    c.equal(f"per_span({b}, {red})", got, [float(f(w[k][:7])), float(f(w[k][7:]))])
            df = env.to_dataframe()
            c.equal("dataframe x", list(df["x"]), [v / 2 for v in (0, 0, 2, 4, 6, 8, 8, 8, 8, 10, 12, 14, 16, 16)])
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "e.csv")
                env.to_csv(p)
                arr = np.loadtxt(p, delimiter=",", skiprows=1)
            for j, (k, b) in enumerate((("mmax", "Mmax"), ("mmin", "Mmin"), ("vmax", "Vmax"), ("vmin", "Vmin"))):
                c.equal(f"dataframe {b}", list(df[b]), [float(v) for v in w[k]])
                c.equal(f"csv {b}", list(arr[:, j + 1]), [float(v) for v in w[k]])
        for i, e in enumerate(st["regs"]):
            check_env(c, f"envelope {i}", regs[i], e)
        for p, q in zip(pool, pool_before):
            c.true("the results an envelope was built from were altered",
                   np.array_equal(p.results.M, q[0]) and np.array_equal(p.results.V, q[1]) and np.array_equal(p.R, q[2]))
    if stats["sample"] is None and len(hist) > 5:
        stats["sample"] = {"history": hist[:12]}
