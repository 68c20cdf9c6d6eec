"""Replay of lifecycle.qnt: histories of public calls on one BeamAnalysis; and of
stability.qnt: every support/release arrangement of small beams."""
import re
from copy import deepcopy

import numpy as np

from core import Mismatch, micro
from model import Cmp, beam_args, lm_of, make_analysis
from r_elastic import beam_repr, compare

KINDS = {1: "add_udl", 2: "add_pl", 3: "add_pudl", 4: "add_ml", 5: "add_trap"}


def snapshot(br):
    if br is None:
        return None
    arr = [br.R, br.Rs, br.D] + [getattr(v, a) for v in list(br.vRes) + [br.results] for a in ("x", "M", "V", "R", "D")]
    return [np.array(a, dtype=float, copy=True) for a in arr]


def same(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def expect_refusal(c, what, fn):
    c.stats["cmp"] += 1
    try:
        fn()
    except (ValueError, TypeError, IndexError, KeyError, NotImplementedError):
        return
    raise Mismatch(f"{c.where}{what} should be refused with an error")


def counted(text, what):
    """the numbers a one-line summary gives for `what`"""
    return [int(x) for x in re.findall(rf"(\d+)\s+{what}", str(text))]


def summary(c, ba, st):
    """the summaries of the model state what it holds and whether it is analysed"""
    told = st["told"]
    for text in (repr(ba), repr(ba.beam)):
        c.equal(f"members in {text}", counted(text, "member"), [told["members"]])
        if told["plain"]:
            c.equal(f"supports in {text}", counted(text, "support"), [told["supports"]])
        if st["valid"]:
            c.equal(f"loads in {text}", counted(text, "load"), [told["loads"]])
    text = repr(ba)
    c.equal(f"{text} tells that it is not analysed", "not analysed" in text, not st["res"]["has"])
    c.true(f"{text} tells that it is analysed", "analysed" in text)


def put(beam, attr, i, v, in_place):
    """one entry of a list of the beam, by assignment of a new list or where it is"""
    if in_place:
        try:
            getattr(beam, attr)[i] = v
        except TypeError:
            pass  # not a list to be edited
        now = getattr(beam, attr)[i]
        if now is v or (v is not None and now == v):
            return
    new = list(getattr(beam, attr))
    new[i] = v
    setattr(beam, attr, new)


def make_other(kw, rows):
    import pycba

    return pycba.BeamAnalysis(LM=rows, **kw)


def replay(label, states, stats, rel=1e-3, relD=1e-2):
    ba = None
    caller = None
    snap = None
    hist = []
    for st in states:
        call = st["call"]
        name, a = call["name"], call["a"]
        rows = lm_of(call["rows"])
        hist.append((name, [micro(x) if abs(x) > 500 else x for x in a], rows))
        stats["actions"][name] = stats["actions"].get(name, 0) + 1
        c = Cmp(stats, f"{beam_repr(states[0])} history {hist[1:]}: ")
        if name == "init":
            ba = make_analysis(st["beam"], [])
        elif name == "add":
            r = rows[0]
            if r[1] == 6:
                ba.add_ic(r[0], r[2:])
            else:
                getattr(ba, KINDS[r[1]])(r[0], *r[2:])
        elif name == "set_loads":
            caller = rows
            before = deepcopy(caller)
            ba.set_loads(caller)
            c.equal("caller's list after set_loads", caller, before)
        elif name == "caller_appends":
            caller.append([1, 1, 77.0])
        elif name == "set_malformed":
            ba.set_loads([(1, 1, 10.0)])
        elif name == "clash":
            kw = beam_args(st["beam"])
            kw["R"] = [2500.0 if i == 2 * a[0] else r for i, r in enumerate(kw["R"])]
            kw["D"] = [micro(a[1]) if i == 2 * a[0] else None for i in range(len(kw["R"]))]
            other = make_other(kw, [[i + 1, 1, 10.0] for i in range(len(st["beam"]["spans"]))])
            for check in (True, False):
                expect_refusal(c, f"a displacement {micro(a[1])} of loaded spring support {a[0]}", lambda: other.analyze(check_stability=check))
        elif name == "add_incomplete":
            expect_refusal(c, "a trapezoid with a start but no length", lambda: ba.add_trap(1, 5.0, 6.0, a=1.0))
            expect_refusal(c, "a trapezoid from the support without length", lambda: ba.add_trap(1, 5.0, 6.0, a=0))
        elif name == "restraint":
            put(ba.beam, "restraints", a[0], -1 if a[1] < 0 else (micro(a[1]) if a[1] else 0), a[2])
        elif name == "displacement":
            put(ba.beam, "prescribed_displacements", a[0], micro(st["beam"]["disp"][a[0]]) if a[1] else None, a[2])
        elif name == "clear_displacements":
            ba.beam.prescribed_displacements = [None] * len(ba.beam.prescribed_displacements)
        elif name == "swap":
            D = list(ba.beam.prescribed_displacements)
            D[a[0]] = micro(a[1])
            ba.beam.prescribed_displacements = D
            R = list(ba.beam.restraints)
            R[a[0]] = 0
            ba.beam.restraints = R
        elif name == "free":
            # only the setters that matter are called
            if a[1]:
                put(ba.beam, "restraints", a[0], 0, a[3])
            if a[2]:
                put(ba.beam, "prescribed_displacements", a[0], None, a[3])
        elif name == "bad_displacements":
            def bad():
                ba.beam.prescribed_displacements = [None]
            expect_refusal(c, "a displacement vector of the wrong length", bad)
        elif name == "analyze":
            n = a[0] or None
            if call["ok"]:
                rc = ba.analyze(n, check_stability=bool(a[1]))
                c.equal("analyze() return code", rc, 0)
            else:
                expect_refusal(c, "this analysis", lambda: ba.analyze(n, check_stability=bool(a[1])))
        elif name == "is_stable":
            c.equal("is_stable()", bool(ba.is_stable()), call["ok"])
        elif name == "query":
            if st["res"]["has"]:
                x = float(ba.beam_results.results.x[-1]) * 0.37
                ba.at(x)
                ba.to_dataframe()
                ba.beam_results.deflection_curve()
            else:
                c.true("queries before any analysis return nothing", ba.at(0.5) is None and ba.to_dataframe() is None)
        else:
            raise Mismatch(f"unknown action {name}")
        # --- projection of the real state -----------------------------------
        if st["valid"]:
            got = [list(map(float, r)) for r in ba.beam.loads]
            want = [list(map(float, r)) for r in lm_of(st["lm"])]
            c.equal("loads held", got, want)
        res = st["res"]
        summary(c, ba, st)
        if not res["has"]:
            c.true("results exist although no analysis succeeded", ba.beam_results is None)
            continue
        now = snapshot(ba.beam_results)
        if name == "analyze" and call["ok"]:
            n0 = res["npts"]
            for v in ba.beam_results.vRes:
                c.equal("stations per member", len(v.x), n0 + 3)
            if n0 >= 100:
                compare(ba, res, c, n0, rel, relD)
            else:
                compare(ba, res, c, n0, rel, relD, aspects=("reactions", "nodes", "diagrams"))
            # the same call again gives the same answer
            ba.analyze()
            c.true("repeating the analysis changed the results", same(now, snapshot(ba.beam_results)))
            snap = now
        else:
            c.true("results changed without a successful analysis", same(now, snap))
    if stats["sample"] is None and len(hist) > 5:
        stats["sample"] = {"beam": beam_repr(states[0]), "history": [h[0] for h in hist]}


def in_mm(b):
    """the same beam (of constant pieces) written in N and mm"""
    def pieces(ps, f):
        return [{**p, "x0": 1000 * p["x0"], "x1": 1000 * p["x1"], "xs": [1000 * x for x in p["xs"]],
                 "ys": [f * y for y in p["ys"]]} for p in ps]
    return {
        "spans": [{**s, "L": 1000 * s["L"], "ei": pieces(s["ei"], 10**9), "ga": pieces(s["ga"], 1000)} for s in b["spans"]],
        "rest": [r * (10**6 if i % 2 else 1) if r > 0 else r for i, r in enumerate(b["rest"])],
        "dset": b["dset"],
        "disp": [d * (1 if i % 2 else 1000) for i, d in enumerate(b["disp"])],
    }


STIFFER = 3 * 10**8


def stiffer(b, j):
    """the beam with one member of a far stiffer section"""
    spans = [{**s, "ei": [{**p, "ys": [STIFFER * y for y in p["ys"]]} for p in s["ei"]]} if i == j else s for i, s in enumerate(b["spans"])]
    return {**b, "spans": spans}


def replay_stability(label, states, stats):
    for st in states:
        c = Cmp(stats, f"{beam_repr(st)}{", member %d stiffer" % st["link"] if st["link"] >= 0 else ""}: ")
        stats["actions"]["arrangement"] = stats["actions"].get("arrangement", 0) + 1
        # one object: ask first and analyse then, or the other way round
        b = stiffer(st["beam"], st["link"])
        ba = make_analysis(in_mm(b) if st["mm"] else b, [[1, 1, 10.0]])
        ask_first = st["k"] % 2 == 0
        if ask_first:
            c.equal("is_stable()", bool(ba.is_stable()), st["stable"])
        if st["stable"]:
            try:
                ba.analyze()
            except ValueError:
                b = st["beam"]
                if any(b["rest"][d] > 0 and b["dset"][d] for d in range(4)):
                    continue
                raise
            c.true("no results", ba.beam_results is not None)
        else:
            expect_refusal(c, "a mechanism", lambda: ba.analyze())
            c.true("a refused analysis left results", ba.beam_results is None)
        if not ask_first:
            c.equal("is_stable()", bool(ba.is_stable()), st["stable"])
    if stats["sample"] is None:
        stats["sample"] = {"beam": beam_repr(states[-1]), "stable": states[-1]["stable"]}
