"""Replay of patternload.qnt: LoadPattern."""
import copy

import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, beam_args, lm_of
from r_elastic import beam_repr
from r_load_cases import density, reader, same_rows, spoil


def title(a):
    return {"hogging": f"Max hogging spans {a['i']}-{a['i'] + 1}", "odd": "Max odd spans", "even": "Max even spans", "all": "All spans max"}[a["kind"]]


def replay(label, states, stats):
    import pycba as pc

    st0 = states[0]
    own = [[1, 1, 5.0]]
    ba = pc.BeamAnalysis(LM=copy.deepcopy(own), **beam_args(st0["beam"]))
    n = density(st0)
    b = st0["beam"]
    founded = any(s["kf"] for s in b["spans"])
    rel = 6e-3 if founded else 2e-3 if any(s["ga"] or len(s["ei"]) > 1 or len(s["ei"][0]["ys"]) > 1 for s in b["spans"]) else 1e-7
    lp = pc.LoadPattern(ba)
    hist = []
    on = None
    for st in states[1:]:
        stats["actions"][st["op"]] = stats["actions"].get(st["op"], 0) + 1
        g = st.get(st["op"]) if st["op"] in ("dead", "live") else None
        hist.append(st["op"] + (f" {lm_of(g['rows'])} max {g['hi'] / 1000} min {g['lo'] / 1000}" if g else ""))
        c = Cmp(stats, f"{beam_repr(st)}: {'; '.join(hist[-4:])}: ")
        if g:
            rows = lm_of(g["rows"])
            fn = lp.set_dead_loads if st["op"] == "dead" else lp.set_live_loads
            fn(pc.LoadCase("given", rows) if len(hist) % 2 else rows, gamma_max=g["hi"] / 1000, gamma_min=g["lo"] / 1000)
            spoil(rows)
            continue
        if st["op"] == "early":
            for fn in (lp.to_load_cases, lp.analyze, lp.to_LM):
                try:
                    fn()
                except ValueError:
                    continue
                raise Mismatch(c.where + "patterning without loads")
            continue
        on = on or reader(pc, st)
        lc = lp.to_load_cases()
        c.equal("arrangements", lc.names, tuple(title(a) for a in st["arr"]))
        for a, case in zip(st["arr"], lc):
            c.true(f"{case.name}: loads {case.loads}, expected {lm_of(a['rows'])}", same_rows(case.loads, lm_of(a["rows"])))
            c.equal(f"{case.name}: loaded spans", tuple(case.loaded_spans), tuple(s - 1 for s in a["spans"]))
            c.equal(f"{case.name}: spans listed", tuple(case.metadata["max_spans"]), tuple(a["spans"]))
        d = lp.to_LM()
        c.true("to_LM", list(d) == list(lc.names) and all(same_rows(d[k.name], k.loads) for k in lc))
        for r in d.values():
            spoil(r)
        for k in lc:
            spoil(k.loads)
        env = lp.analyze(n)
        scale = {q: 1 + max(abs(pico(x)) for e in st["each"] for x in e[k]) for q, k in (("M", "m"), ("V", "v"), ("R", "r")) if st["each"][0][k]}
        big = max(scale.values())
        for q, k in (("M", "m"), ("V", "v")):
            for which, e in (("max", st["hi"]), ("min", st["lo"])):
                got = on(getattr(env, q + which))
                want = np.array([pico(x) for x in e[k]])
                want = np.maximum(want, 0) if which == "max" else np.minimum(want, 0)
                c.true(f"envelope {q}{which} length", got.shape == want.shape)
                for j in range(len(got)):
                    c(f"envelope {q}{which} at station {j % 9} of member {j // 9 + 1}", got[j], want[j], rel * big)
        for j, (h, l) in enumerate(zip(st["hi"]["r"], st["lo"]["r"])):
            c(f"largest reaction {j}", env.Rmaxval[j], max(pico(h), 0), rel * big)
            c(f"smallest reaction {j}", env.Rminval[j], min(pico(l), 0), rel * big)
            for k in range(len(st["each"])):
                r = pico(st["each"][k]["r"][j])
                c(f"upward reaction {j} in arrangement {k}", env.Rmax[j][k], max(r, 0), rel * big)
                c(f"downward reaction {j} in arrangement {k}", env.Rmin[j][k], min(r, 0), rel * big)
        c.equal("number of arrangements analysed", env.nres, len(st["arr"]))
        # the beam is left with the loads its results belong to
        fresh = pc.BeamAnalysis(LM=copy.deepcopy(ba.beam.loads), **beam_args(b))
        fresh.analyze(n)
        c.true("after patterning, the beam's loads and results disagree",
               np.allclose(fresh.beam_results.results.M, ba.beam_results.results.M, rtol=1e-9, atol=1e-9 * big))
    if stats["sample"] is None and len(hist) > 3:
        stats["sample"] = {"beam": beam_repr(states[-1]), "calls": hist}
