"""Replay of bridge.qnt: vehicles on bridges, traverses, load models, critical values."""
import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, beam_args, lm_of, make_analysis
from r_elastic import beam_repr, conflicting_spring

NG = 8


def scale(cur):
    F = 1.0
    for r in cur["res"]:
        F = max([F] + [abs(pico(x)) for x in r["react"]] + [abs(pico(q[k])) for m in r["mem"] for q in m for k in ("ql", "qh", "ml", "mh")])
    return F


def station_map(ba, secs):
    """index in the result arrays of the regular stations of every member"""
    out, k0 = [], 0
    for i, v in enumerate(ba.beam_results.vRes):
        L = ba.beam.mbr_lengths[i]
        xl = v.x - v.x[0]
        ix = [1 + int(np.argmin(np.abs(xl[1:-1] - L * k / NG))) for k in range(NG + 1)]
        for k, j in enumerate(ix):
            if abs(xl[j] - L * k / NG) > 1e-9 * L:
                raise Mismatch(f"member {i + 1}: no station at {L * k / NG}")
        out.append([k0 + j for j in ix])
        k0 += len(v.x)
    return out


def compare_position(c, br, smap, b, r, tol, what):
    R = [pico(x) for x, h in zip(r["react"], b["rest"]) if h < 0]
    c.equal(what + " number of reactions", len(br.R), len(R))
    for k, (g, w) in enumerate(zip(br.R, R)):
        c(f"{what} reaction R[{k}]", g, w, tol)
    for i, m in enumerate(r["mem"]):
        for k, q in enumerate(m):
            j = smap[i][k]
            c.between(f"{what} member {i + 1} station {k}/{NG} M", br.results.M[j], pico(q["ml"]), pico(q["mh"]), tol)
            c.between(f"{what} member {i + 1} station {k}/{NG} V", br.results.V[j], pico(q["ql"]), pico(q["qh"]), tol)


def compare_env(c, env, smap, cur, tol):
    for i, m in enumerate(cur["env"]):
        for k, e in enumerate(m):
            j = smap[i][k]
            for nm, key in (("Mmax", "mx"), ("Mmin", "mn"), ("Vmax", "vx"), ("Vmin", "vn")):
                lo, hi = e[key]
                c.between(f"{nm} at member {i + 1} station {k}/{NG}", getattr(env, nm)[j], pico(lo), pico(hi), tol)
    for k, w in enumerate(cur["rmax"]):
        c(f"Rmaxval[{k}]", env.Rmaxval[k], pico(w), tol)
        c(f"Rminval[{k}]", env.Rminval[k], pico(cur["rmin"][k]), tol)


def interval(res, i, k, eff):
    lo, hi = ("ml", "mh") if eff == "M" else ("ql", "qh")
    q = res["mem"][i][k]
    return min(pico(q[lo]), pico(q[hi])), max(pico(q[lo]), pico(q[hi]))


def compare_critical(c, bridge, env, cur, b, Ls, tol):
    crit = bridge.critical_values(env)
    x0 = np.concatenate([[0.0], np.cumsum(Ls)])
    # stations of the specification by coordinate
    where = [(x0[i] + Ls[i] * k / NG, i, k) for i in range(len(Ls)) for k in range(NG + 1)]
    with_secs = bool(cur["secs"])
    for nm, key, eff, co, s in (("Mmax", "mx", "M", "Vco", 1), ("Mmin", "mn", "M", "Vco", -1),
                                ("Vmax", "vx", "V", "Mco", 1), ("Vmin", "vn", "V", "Mco", -1)):
        e = crit[nm]
        lows = [s * pico(x[key][0]) for m in cur["env"] for x in m]
        highs = [s * pico(x[key][1]) for m in cur["env"] for x in m]
        # (for a minimum the interval reads the other way round)
        lo, hi = max(min(a, z) for a, z in zip(lows, highs)), max(max(a, z) for a, z in zip(lows, highs))
        if with_secs and eff == "V":
            hi = max([hi] + [s * pico(v) for r in cur["res"] for pr in r["sec"] for v in pr])
        c.between(f"critical {nm}", s * e["val"], lo, hi if not (with_secs and eff == "M") else float("inf"), tol)
        if with_secs:
            continue
        # the extreme really occurs where and when reported
        spots = [(i, k) for x, i, k in where if abs(x - e["at"]) < 1e-9]
        c.true(f"critical {nm} location {e['at']} is not a station", bool(spots))
        if abs(e["val"]) > 1e-6 * tol * 1e7:
            ok = False
            for p, pos in enumerate(cur["pos"]):
                for i, k in spots:
                    a, z = interval(cur["res"][p], i, k, eff)
                    if a - tol <= e["val"] <= z + tol:
                        ca, cz = interval(cur["res"][p], i, k, "V" if eff == "M" else "M")
                        if ca - tol <= e[co] <= cz + tol:
                            ok = True
            c.true(f"critical {nm}={e['val']} with {co}={e[co]} does not occur at x={e['at']}", ok)
        # positions: those whose own extreme is the critical value
        got = [round(x * 1e6) for x in e["pos"]]
        for p, pos in enumerate(cur["pos"]):
            iv = [interval(cur["res"][p], i, k, eff) for _, i, k in where]
            ptop = max([0.0] + [max(s * a, s * z) for a, z in iv])
            pbot = max([0.0] + [min(s * a, s * z) for a, z in iv])
            if pbot > s * e["val"] - 1e-7 * abs(e["val"]) - tol * 0.01 and abs(e["val"]) > 1:
                c.true(f"critical {nm} also occurs at vehicle position {micro(pos)}, reported {e['pos']}", pos in got)
            if ptop < s * e["val"] * (1 - 5e-5) - 1e-6:
                c.true(f"critical {nm} does not occur at the reported vehicle position {micro(pos)}", pos not in got)
        c.true(f"critical {nm} has no vehicle position", len(got) > 0 and all(g in cur["pos"] for g in got))
    held = [d for d in range(len(b["rest"])) if b["rest"][d] < 0]
    c.equal("nsup", crit["nsup"], len(held))
    for k, d in enumerate(held):
        for nm, f, vals in ((f"Rmax{k}", max, cur["rmax"]), (f"Rmin{k}", min, cur["rmin"])):
            c(f"critical {nm}", crit[nm]["val"], pico(vals[k]), tol)
            pp = round(crit[nm]["pos"] * 1e6)
            c.true(f"critical {nm} position {crit[nm]['pos']}", pp in cur["pos"])
            r = f(0.0, pico(cur["res"][cur["pos"].index(pp)]["react"][d]))
            c(f"critical {nm} at its reported position", r, pico(vals[k]), tol)
    # both-sided shear at the extra sections
    if cur["secs"]:
        c.true("shear sections missing from the critical values", "shear_points" in crit)
        blk = crit["shear_points"]
        c.equal("shear sections", sorted(round(g * 1e6) for g in blk), sorted(cur["secs"]))
        sup = [x0[i] for i in range(len(x0)) if b["rest"][2 * i] != 0]
        for g, ent in blk.items():
            j = cur["secs"].index(round(g * 1e6))
            l = [pico(r["sec"][j][0]) for r in cur["res"]]
            h = [pico(r["sec"][j][1]) for r in cur["res"]]
            # an axle standing exactly on a joint may be felt on its right side
            h2 = h
            for m in range(1, len(Ls)):
                if abs(x0[m] - g) < 1e-9:
                    h2 = [pico(r["mem"][m][0]["ql"]) for r in cur["res"]]
            for nm, w, w2 in (("Vmax_left", l, l), ("Vmax_right", h, h2), ("Vmax", l + h, l + h2)):
                c.between(f"shear section {g} {nm}", ent[nm], max([0.0] + w), max([0.0] + w2), 10 * tol)
            for nm, w, w2 in (("Vmin_left", l, l), ("Vmin_right", h, h2), ("Vmin", l + h, l + h2)):
                c.between(f"shear section {g} {nm}", ent[nm], min([0.0] + w), min([0.0] + w2), 10 * tol)
            if sup:
                d = min(abs(x - g) for x in sup)
                c("nearest support distance of a shear section", abs(ent["support"] - g), d, 1e-9)
                if ent["support"] != g:
                    c.equal("side of a shear section", ent["side"], "left" if g < ent["support"] else "right")
    else:
        c.true("shear sections reported though none were requested", "shear_points" not in crit)


def compare_ratios(c, bridge, envs, runs, smap, smap0, tol):
    if envs[0].npts != envs[1].npts:
        try:
            bridge.envelopes_ratios(envs[0], envs[1])
        except ValueError:
            return
        raise Mismatch(c.where + "ratios of envelopes with different stations were not refused")
    rat = bridge.envelopes_ratios(envs[0], envs[1])
    for i, m in enumerate(runs[0]["env"]):
        for k, e in enumerate(m):
            o = runs[1]["env"][i][k]
            for nm, key in (("Mmax", "mx"), ("Mmin", "mn"), ("Vmax", "vx"), ("Vmin", "vn")):
                a, z = (pico(v) for v in e[key])
                p, q = (pico(v) for v in o[key])
                if abs(z - a) > tol or abs(q - p) > tol:
                    continue
                ratio(c, f"ratio {nm} at member {i + 1} station {k}/{NG}", rat[nm][smap[i][k]], a, p, tol)
    for k in range(len(runs[0]["rmax"])):
        ratio(c, f"ratio Rmax{k}", rat[f"Rmax{k}"], pico(runs[0]["rmax"][k]), pico(runs[1]["rmax"][k]), tol)
        ratio(c, f"ratio Rmin{k}", rat[f"Rmin{k}"], pico(runs[0]["rmin"][k]), pico(runs[1]["rmin"][k]), tol)


def ratio(c, what, got, a, b, tol):
    if abs(b) < 0.9e-3 - tol:
        c(what, got, 0.0, 0.0)
    elif abs(b) > 1.1e-3 + tol:
        r = abs(a / b)
        c(what, got, r, (tol + r * tol) / abs(b) + 1e-9 * r)


def replay(label, states, stats, aspects=("positions", "envelopes", "critical", "ratios")):
    import matplotlib.pyplot as plt
    import pycba

    st0 = states[0]
    b = st0["beam"]
    if not st0["cur"]["ok"]:
        return
    Ls = [micro(s["L"]) for s in b["spans"]]
    static = lm_of(st0["fixedLoads"])

    def vehicle(v):
        return pycba.Vehicle(np.array([micro(x) for x in v["gap"]]), np.array([micro(x) for x in v["w"]]))

    ba = make_analysis(b, st0["fixedLoads"])
    if conflicting_spring({"beam": b, "lm": [[1 + i, 0] for i in range(len(Ls))]}):
        return
    veh = vehicle(st0["veh"])
    style = sum(x["L"] for x in b["spans"]) // 1000000 % 3
    if style == 0:
        bridge = pycba.BridgeAnalysis(ba, veh)
    elif style == 1:
        bridge = pycba.BridgeAnalysis()
        bridge.set_bridge(ba)
        bridge.set_vehicle(veh)
    else:
        bridge = pycba.BridgeAnalysis()
        kw = beam_args(b)
        if "D" in kw:
            bridge.set_bridge(ba)
        else:
            bridge.add_bridge(kw["L"], kw["EI"], kw["R"], kw["eletype"])
            for row in static:
                bridge.ba.add_load(row) if hasattr(bridge.ba, "add_load") else bridge.ba.beam.add_load(row)
        bridge.add_vehicle(np.array([micro(x) for x in st0["veh"]["gap"]]), np.array([micro(x) for x in st0["veh"]["w"]]))
    ba = bridge.ba
    ba.npts = NG
    last = None  # (run, envelope, station map)
    for st in states[1:]:
        cur, q = st["cur"], st["req"]
        kind = cur["kind"]
        stats["actions"][kind] = stats["actions"].get(kind, 0) + 1
        c = Cmp(stats, f"{beam_repr(st)} static {static} vehicle gaps {[micro(x) for x in st['veh']['gap']]} weights "
                       f"{[micro(x) for x in st['veh']['w']]} reversed {st['veh']['rev']}; {kind} {request_text(q)}: ")
        if kind == "turn":
            bridge.veh.reverse()
            continue
        if kind == "another":
            if len(st["veh"]["w"]) % 2:
                bridge.set_vehicle(vehicle(st["veh"]))
            else:
                bridge.add_vehicle(np.array([micro(x) for x in st["veh"]["gap"]]), np.array([micro(x) for x in st["veh"]["w"]]))
            continue
        if kind == "burden":
            static = lm_of(st["fixedLoads"])
            bridge.ba.beam.add_load(static[-1])
            continue
        if kind == "rewrap":
            bridge = pycba.BridgeAnalysis(bridge.ba, bridge.veh)
            last = None
            continue
        if kind == "sketch":
            before = (list(bridge.pos), len(bridge.vResults))
            bridge.plot_static(micro(q["start"]))
            plt.close("all")
            c.equal("positions after a drawing", (list(bridge.pos), len(bridge.vResults)), before)
            c.equal("the bridge's own loads after a drawing", [list(r) for r in ba.beam.loads], static)
            c.true("a drawing left shear sections in force", ba.shear_points is None)
            continue
        if kind == "unready":
            bare = pycba.BridgeAnalysis()
            has, what = q["dv"] % 3, q["dv"] // 3
            if has == 1:
                bare.set_vehicle(vehicle(st["veh"]))
            elif has == 2:
                bare.set_bridge(bridge.ba)
            try:
                [lambda: bare.static_vehicle(1.0), lambda: bare.run_vehicle(1.0),
                 lambda: bare.run_load_model(1.0, 5.0), lambda: bare.plot_static(1.0)][what]()
            except ValueError:
                plt.close("all")
                c.equal("the bridge's own loads after a refusal", [list(r) for r in ba.beam.loads], static)
                c.true("a refusal left shear sections in force", ba.shear_points is None)
                continue
            raise Mismatch(c.where + "an analysis lacking its bridge or vehicle was carried out")
        if kind == "badClear":
            bad = [(-1.0, 2.0), (1.0, float("nan")), (1.0, 2.0, 3.0), (float("inf"), 1.0), 4.0, (), (1.0, -0.5), 0.0][q["dv"]]
            before = (list(bridge.pos), list(ba.beam.loads), ba.beam_results)
            try:
                bridge.run_load_model(1.0, micro(q["w"]), clearances=bad)
            except ValueError:
                c.true("a refused load model disturbed the bridge",
                       before == (list(bridge.pos), list(ba.beam.loads), ba.beam_results))
                continue
            raise Mismatch(c.where + f"clear zone {bad!r} was accepted")
        tol = 1e-7 * scale(cur) + 1e-9
        kw = {}
        if q["dv"]:
            kw["dv"] = max(micro(q["dv"]), 0.0)
        if q["pts"]:
            kw["shear_points"] = micro(q["pts"][0]) if len(q["pts"]) == 1 else np.array([micro(x) for x in q["pts"]])
        if kind == "place":
            br = bridge.static_vehicle(micro(cur["pos"][0]), bool(q["show"]), **kw)
            c.equal("a drawing is made when asked for", len(plt.get_fignums()) > 0, bool(q["show"]))
            plt.close("all")
            c.true("static_vehicle does not return the analysis' results", br is ba.beam_results)
            if "positions" in aspects:
                compare_position(c, br, station_map(ba, cur["secs"]), b, cur["res"][0], tol, f"front axle at {micro(cur['pos'][0])}:")
            c.true("extra shear sections left in force", ba.shear_points is None)
            c.equal("the bridge's own loads", [list(r) for r in ba.beam.loads], static)
            continue
        if not q["deflt"]:
            kw["pos_start"], kw["pos_end"] = micro(q["start"]), micro(q["stop"])
        if q["show"]:
            kw["plot_env"] = True
        if q["show"] == 2:
            kw["plot_all"] = True
        if kind == "drive":
            env = bridge.run_vehicle(micro(q["step"]), **kw)
        else:
            if q["clear"]:
                kw["clearances"] = tuple(micro(x) for x in q["clear"])
            env = bridge.run_load_model(micro(q["step"]), micro(q["w"]), **kw)
        c.equal("a drawing is made when asked for", len(plt.get_fignums()) > 0, bool(q["show"]))
        plt.close("all")
        c.true("extra shear sections left in force", ba.shear_points is None)
        c.equal("the bridge's own loads", [list(r) for r in ba.beam.loads], static)
        c.equal("vehicle positions", [round(p * 1e9) for p in bridge.pos], [p * 1000 for p in cur["pos"]])
        c.equal("number of stored results", len(bridge.vResults), len(cur["pos"]))
        smap = station_map(ba, cur["secs"])
        if "positions" in aspects:
            for p, r, br in zip(cur["pos"], cur["res"], bridge.vResults):
                compare_position(c, br, smap, b, r, tol, f"front axle at {micro(p)}:")
        if "envelopes" in aspects:
            compare_env(c, env, smap, cur, tol)
        if "critical" in aspects:
            compare_critical(c, bridge, env, cur, b, Ls, tol)
            if last is not None and last[1].npts == env.npts:
                foreign(c, bridge, last, cur, tol)
        if "ratios" in aspects and last is not None and last[0]["secs"] == cur["secs"]:
            t2 = max(tol, 1e-7 * scale(last[0]))
            compare_ratios(c, bridge, (env, last[1]), (cur, last[0]), smap, last[2], t2)
        last = (cur, env, smap)
    if stats["sample"] is None and len(states) > 3 and states[-1]["cur"]["pos"]:
        stats["sample"] = {"beam": beam_repr(st0), "static": static, "vehicle": states[-1]["veh"],
                           "positions": [micro(x) for x in states[-1]["cur"]["pos"]]}


def foreign(c, bridge, last, cur, tol):
    """an envelope whose extremes this run never reached is refused"""
    def top(run, key, s):
        return max([0.0] + [s * pico(v) for m in run["env"] for e in m for v in e[key]])

    diff = False
    for key, s in (("mx", 1), ("mn", -1)):
        w = top(last[0], key, s)
        own = [max([0.0] + [s * pico(x[k]) for m in r["mem"] for x in m for k in ("ml", "mh")]) for r in cur["res"]]
        if all(abs(o - w) > 1e-4 * max(abs(w), 1) for o in own):
            diff = True
    if diff and not cur["secs"] and not last[0]["secs"]:
        try:
            bridge.critical_values(last[1])
        except ValueError:
            return
        raise Mismatch(c.where + "critical values of an envelope from another run were not refused")


def request_text(q):
    t = {"step": micro(q["step"])}
    if not q["deflt"] or not q["step"]:
        t["from"], t["to"] = micro(q["start"]), micro(q["stop"])
    for k in ("w", "dv"):
        if q[k]:
            t[k] = micro(q[k])
    for k in ("clear", "pts"):
        if q[k]:
            t[k] = [micro(x) for x in q[k]]
    return t
