"""Replay of shorthand.qnt: the notations in which a structure can be described."""
import numpy as np

from core import Mismatch, micro, pico
from model import Cmp

REFUSED = (ValueError, TypeError, IndexError, KeyError)


def number(x, style):
    return [f"{x:.9g}", f"{x:.6f}", f" {x:.8g} ", f"+{x:.9g}", f"{x!r}", f"{x:.6f} "][style]


def letter(t, k, style):
    return t.upper() if style in (0, 1) or (style > 3 and k % 2) else t


def beam_string(a):
    L = [micro(x) for x in a["lens"]]
    st, flaw = a["style"], a["flaw"]
    nums = [number(x, st) for x in L]
    if flaw == "negative":
        nums[-1] = "-" + nums[-1].strip().lstrip("+")
    elif flaw == "zero":
        nums[-1] = "0.0"
    elif flaw == "missing":
        nums[-1] = ""
    elif flaw == "letters":
        nums[-1] = nums[-1].strip() + "m"
    s = letter(a["nodes"][0], 0, st)
    for k, (n, t) in enumerate(zip(nums, a["nodes"][1:])):
        s += n + letter(t, k + 1, st)
    if flaw == "prefix":
        s = nums[0] + s
    elif flaw == "suffix":
        s = s + nums[0]
    elif flaw == "single":
        s = a["nodes"][0] + nums[0]
    elif flaw == "empty":
        s = ""
    return s


def types(a):
    from pycba import MemberType

    out = []
    for k, t in enumerate(a["types"]):
        st = (a["style"] + k) % 6
        if t.isdigit():
            n = int(t)
            out.append([n, np.int64(n), np.array([n]), MemberType(n), float(n), n][st])
        else:
            out.append([t, t.lower(), f" {t} ", getattr(MemberType, t), t, t.capitalize()][st])
    return out


def supports(a):
    out = []
    for k, t in enumerate(a["nodes"]):
        st = (a["style"] + k) % 6
        if t in ("pair", "spring"):
            p = [(-1 if x < 0 else micro(x)) for x in a["num"][2 * k:2 * k + 2]]
            out.append([p, tuple(p), np.array(p, dtype=float), p, tuple(p), p][st])
        else:
            out.append([t, t.upper(), t.capitalize(), f" {t}", f"{t} ", t][st])
    return out


def want_R(rest):
    return [(-1.0 if x < 0 else micro(x)) for x in rest]


def check_beam(c, beam, b):
    L = [micro(x) for x in b["L"]]
    c.equal("number of spans", beam.no_spans, len(L))
    c.equal("span lengths", [float(x) for x in beam.mbr_lengths], L)
    c.equal("member types", [int(np.asarray(e).item()) for e in beam.mbr_eletype], b["et"])
    c.equal("per-span data", (len(beam.mbr_EIs), len(beam.mbr_GAv), len(beam.mbr_kf)), (len(L),) * 3)
    c("total length", beam.length, sum(L), 1e-9)
    pos = 0.0
    for i, l in enumerate(L):
        if not 0 <= pos + l / 3 <= beam.length:
            break
        j, x = beam.get_local_span_coords(pos + l / 3)
        c.equal(f"span found at {pos + l / 3}", j, i)
        c(f"local coordinate at {pos + l / 3}", x, l / 3, 1e-9)
        pos += l


def solve(c, st, ba, L):
    if not st["stable"]:
        c.true("an unstable structure is taken for a stable one", not ba.is_stable())
        return
    ba.set_loads([[i + 1, 1, 1.0] for i in range(len(L))])
    ba.analyze()
    R, Rs = [], []
    for r, k in zip(st["react"], st["built"]["rest"]):
        (R if k < 0 else Rs if k > 0 else []).append(pico(r))
    got = list(ba.beam_results.R) + list(ba.beam_results.Rs)
    c.equal("number of support actions", len(got), len(R) + len(Rs))
    m = max([abs(x) for x in R + Rs] + [1e-3])
    for g, w in zip(got, R + Rs):
        c("support action", g, w, 1e-6 * m)


def replay(label, states, stats):
    import pycba

    beam = pycba.Beam()
    for st in states:
        a = st["call"]
        name, ok = a["name"], a["ok"]
        stats["actions"][name + ("" if ok else "_refused")] = stats["actions"].get(name + ("" if ok else "_refused"), 0) + 1
        L = [micro(x) for x in a["lens"]]
        b = st["built"]
        if name in ("init", "restart"):
            beam = pycba.Beam()
        elif name == "string":
            s = beam_string(a)
            c = Cmp(stats, f"parse_beam_string({s!r}): ")
            try:
                r = pycba.parse_beam_string(s)
            except REFUSED:
                c.true("refused", not ok)
                continue
            c.true(f"should be refused ({a['flaw'] or 'structure'}), got {r}", ok)
            c.equal("lengths", [float(x) for x in r[0]], L)
            c.equal("restraints", [float(x) for x in r[2]], want_R(b["rest"]))
            c.equal("member types", [int(x) for x in r[3]], b["et"])
            c.true(f"rigidities {r[1]}", len(r[1]) == len(L) and all(float(x) > 0 and float(x) == float(r[1][0]) for x in r[1]))
            ba = pycba.BeamAnalysis(r[0], r[1], r[2], eletype=r[3])
            check_beam(c, ba.beam, b)
            solve(c, st, ba, L)
        elif name == "supports":
            sup, ty, flaw = supports(a), types(a), a["flaw"]
            kw = {"L": L, "EI": 3e5, "supports": sup, "eletype": ty}
            if flaw == "hinge":
                sup[len(sup) // 2] = "Hinge"
            elif flaw == "unknown":
                sup[-1] = "rolle"
            elif flaw == "few":
                sup.pop()
            elif flaw == "many":
                sup.append("p")
            elif flaw == "single":
                sup[0] = [-1]
            elif flaw == "triple":
                sup[0] = [-1, 0, 0]
            elif flaw == "both":
                kw["R"] = [-1, 0] * len(sup)
            elif flaw == "neither":
                kw["supports"] = None
            elif flaw == "type":
                ty[-1] = [0, 5, "FX", 2.5, -1, "H"][a["style"]]
            elif flaw == "types":
                kw["eletype"] = ty + ["FF"] if a["style"] % 2 or len(ty) == 1 else ty[:-1]
            elif flaw == "rigidities":
                kw["EI"] = [3e5] * (len(L) + (1 if a["style"] % 2 or len(L) == 1 else -1))
            elif flaw == "displacements":
                kw["D"] = [None] * (2 * len(sup) - 1)
            elif flaw == "shears":
                kw["GAv"] = [2e5] * (len(L) + (1 if a["style"] % 2 or len(L) == 1 else -1))
            elif flaw == "beds":
                kw["kf"] = [2e3] * (len(L) + (1 if a["style"] % 2 or len(L) == 1 else -1))
                kw["eletype"] = ["FF"] * len(L)
            elif flaw == "restraints":
                kw["supports"] = None
                kw["R"] = [-1, 0] * (len(L) + 1) + ([-1, 0] if a["style"] % 2 else [-1])
                if a["style"] > 3:
                    kw["R"] = kw["R"][:2 * len(L)]
            elif flaw == "length":
                L[-1] = [0.0, -5.0, float("nan"), 0, -1e-9, -1][a["style"]]
            c = Cmp(stats, f"BeamAnalysis({kw}): ")
            mono = all(t in ("FF", "1") for t in a["types"])
            for cls in (pycba.Beam, pycba.BeamAnalysis):
                k2 = dict(kw)
                if ok and mono and a["style"] > 2:
                    del k2["eletype"]  # the default
                try:
                    obj = cls(**k2)
                except REFUSED:
                    c.true(f"{cls.__name__} refused", not ok)
                    continue
                c.true(f"{cls.__name__} should refuse ({flaw})", ok)
                bm = obj if cls is pycba.Beam else obj.beam
                c.equal(f"{cls.__name__} restraints", [float(x) for x in bm.restraints], want_R(b["rest"]))
                check_beam(c, bm, b)
                if cls is pycba.BeamAnalysis:
                    solve(c, st, obj, L)
            if ok:
                c.equal("supports_to_R", [float(x) for x in pycba.supports_to_R(sup)], want_R(b["rest"]))
                c.equal("supports_to_R with a count", [float(x) for x in pycba.supports_to_R(sup, len(sup))], want_R(b["rest"]))
        elif name == "grow":
            c = Cmp(stats, f"Beam grown to {[micro(x) for x in st['grown']['L']]} with {a}: ")
            if ok:
                f = beam.add_span if a["style"] % 2 else beam.add_member
                f(L[0], 3e5, types(a)[0])
            else:
                args = {"type": (L[0], 3e5, "XY"), "length": (-L[0], 3e5, 1),
                        "section": (L[0], pycba.SectionEI([("const", [0, L[0] / 2], 1.0)]), 1),
                        "shear": (L[0], 3e5, 1, pycba.SectionEI([("const", [0, L[0] * 2], 1.0)]))}[a["flaw"]]
                try:
                    beam.add_span(*args)
                except REFUSED:
                    pass
                else:
                    raise Mismatch(f"{c.where}this span should be refused")
            check_beam(c, beam, st["grown"])
        else:
            raise Mismatch(f"unknown action {name}")
