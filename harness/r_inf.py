"""Replay of inf_lines.qnt: creation and requests of influence lines."""
import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, beam_args
from r_elastic import beam_repr


def drawn(il, poi, eff):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()
    il.plot_il(poi, eff, ax=ax)
    x, y = ax.lines[-1].get_data()
    plt.close("all")
    return np.asarray(x), np.asarray(y)


def replay(label, states, stats):
    import pycba as pc

    st = states[0]
    b = st["beam"]
    kw = beam_args(b)
    if st["stable"] and (len(label) + b["spans"][0]["L"]) % 2:
        il = pc.InfluenceLines(**kw)
    else:
        il = pc.InfluenceLines(np.array(kw["L"]), kw["EI"], np.array(kw["R"]), None if kw["eletype"] is None else np.array(kw["eletype"]))
    il.ba.npts = 8
    L = sum(kw["L"])
    varies = any(len(s["ei"]) > 1 or len(s["ei"][0]["ys"]) > 1 for s in b["spans"])
    rel = 2e-3 if varies else 1e-7
    hist, eta, pos = [], None, None
    for st in states[1:]:
        a = st["ask"]
        stats["actions"][st["op"]] = stats["actions"].get(st["op"], 0) + 1
        P, step = micro(st["big"]), micro(st["step_"])
        text = {"create": f"create_ils({step}, {P})", "request": f"get_il({micro(a['poi'])}, {a['eff']})",
                "superpose": f"loads {st['train']['p']} at {st['train']['at']}"}.get(st["op"], st["op"])
        hist.append(text)
        c = Cmp(stats, f"{beam_repr(st)}: {'; '.join(hist[-6:])}: ")
        if st["op"] == "refuse":
            try:
                il.get_il(L / 2, "M")
            except ValueError:
                continue
            raise Mismatch(c.where + "influence lines of a mechanism")
        if st["op"] == "create":
            il.create_ils(step, P) if P != 1 else il.create_ils(step=step)
            continue
        if st["op"] == "request":
            poi = micro(a["poi"])
            eff = a["eff"] if len(hist) % 3 else a["eff"].lower()
            pos, eta = il.get_il(poi, eff)
            pos, eta = np.asarray(pos, float), np.asarray(eta, float)
            c.equal("one ordinate per position", pos.shape, eta.shape)
            c.true(f"positions {pos[:4]}..{pos[-1]} are not multiples of the step {step}", bool(np.allclose(pos, np.arange(len(pos)) * step, rtol=1e-9, atol=1e-9)))
            c.true(f"positions end at {pos[-1]}", L - step * 0.501 <= pos[-1] <= L + step * 0.501)
            W = [pico(v) for v in a["lo"] + a["hi"]]
            scale = max([abs(P)] + [abs(w) for w in W]) * (1 if a["eff"] in ("V", "R") else 1)
            if a["eff"] in ("V", "R"):
                scale = max(scale, abs(P))
            else:
                scale = max(scale, abs(P) * L)
            for j, lo, hi in zip(a["hit"], a["lo"], a["hi"]):
                if a["eff"] == "V" and abs(j * step - poi) < 1e-9 and any(abs(poi - x) < 1e-9 for x in np.cumsum([0] + list(kw["L"]))):
                    # the load enters a support right at the section: the shear
                    # between the two is as good an answer as that beside them
                    lo, hi = min(lo, hi - abs(int(P * 1e12))), max(hi, lo + abs(int(P * 1e12)))
                if j < len(eta):
                    c.between(f"ordinate of {a['eff']} at {poi} for the load {P} at {j * step}", eta[j], pico(lo), pico(hi), rel * scale)
            if len(hist) % 5 == 0:
                x, y = drawn(il, poi, eff)
                c.true("plot_il draws another line", np.array_equal(x, pos) and np.array_equal(y, eta))
        elif st["op"] == "superpose":
            t = st["train"]
            if all(j < len(eta) for j in t["at"]):
                got = sum(micro(p) / P * eta[j] for j, p in zip(t["at"], t["p"]))
                s = sum(abs(micro(p)) for p in t["p"]) * (1 if a["eff"] in ("V", "R") else L)
                # a load standing at the section itself may count on either side
                jump = 0.0
                for j, p in zip(t["at"], t["p"]):
                    k = a["hit"].index(j)
                    jump += abs(micro(p) / P * (pico(a["hi"][k]) - pico(a["lo"][k])))
                c.between(f"superposed {a['eff']} at {micro(a['poi'])}", got, pico(t["lo"]), pico(t["hi"]), rel * s + jump)
    if stats["sample"] is None and len(hist) > 3:
        stats["sample"] = {"beam": beam_repr(states[-1]), "requests": hist}
