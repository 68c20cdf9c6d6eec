"""Replay of load_cases.qnt: histories of a load-case collection, its
combinations and envelopes."""
import copy

import numpy as np

from core import Mismatch, micro, pico
from model import Cmp, beam_args, lm_of
from r_elastic import beam_repr

NS = 8


def name(n):
    if n >= 1000:
        return f"UDL span {n // 1000} segment {n % 1000}"
    if n > 200:
        return f"UDL on span {n - 200}"
    return f"LC {n - 100}" if n > 100 else ("DL", "LL", "wind", "snow", "crane")[n - 1]


def same_rows(got, want):
    if len(got) != len(want):
        return False
    return all(len(g) == len(w) and np.allclose(np.asarray(g, float), np.asarray(w, float), rtol=1e-12, atol=1e-12)
               for g, w in zip(got, want))


def given(o):
    """the declared spans and the note of a case, as a caller passes them"""
    kw = {"loaded_spans": tuple(o["spans"])} if o["spans"] else {}
    if o["note"]:
        kw["metadata"] = {"source": o["note"], "list": [o["note"], {"deep": o["note"]}]}
    return kw


def forget(kw):
    """what a caller may do with a note it still holds"""
    if "metadata" in kw:
        kw["metadata"]["list"][1]["deep"] = "spoilt"
        kw["metadata"]["list"].append("spoilt")
        kw["metadata"]["source"] = "spoilt"


def noted(c, L, case, m):
    """spans declared and note of a stored case"""
    n, md = m["note"], case.metadata
    if m["spans"]:
        c.equal(f"loaded spans of {case.name!r}", tuple(case.loaded_spans), tuple(m["spans"]))
    else:  # where none are declared they may be read off the loads
        c.true(f"loaded spans of {case.name!r}: {case.loaded_spans}",
               set(case.loaded_spans) <= {r[0] - 1 for r in lm_of(m["rows"])})
    if n >= 0:
        c.equal(f"metadata of {case.name!r}", md, given(m).get("metadata"))
        return
    w = lm_of(m["rows"])[0][2]
    i = m["spans"][0]
    c.equal(f"span and load noted with {case.name!r}", (md["span"], md["w"]), (i, w))
    if n == -2:
        a, cover = lm_of(m["rows"])[0][3:]
        k, parts = m["name"] % 1000 - 1, round(L[i] / cover)
        c.equal(f"segment noted with {case.name!r}", (md["segment"], md["n_segments"]), (k, parts))
        c(f"start noted with {case.name!r}", md["x0"], sum(L[:i]) + a, 1e-9)
        c(f"end noted with {case.name!r}", md["x1"], sum(L[:i]) + a + cover, 1e-9)


def spoil(rows):
    """what a caller may do with a list it still holds"""
    for r in rows:
        r[0] = 99
        r.append(7.0)
    rows.append([77, 1, 1e9])


def refused(c, what, errors, fn):
    try:
        fn()
    except errors:
        return
    c.true(what + " was accepted", False)


def single(LC, kind, row):
    """the add_xxx call which appends the given row, on collection or case"""
    i, k, a = row[0], row[1], row[2:]
    if k == 1:
        return lambda o, *p: o.add_udl(*p, i, *a)
    if k == 2:
        return lambda o, *p: o.add_pl(*p, i, *a)
    if k == 3:
        return lambda o, *p: o.add_pudl(*p, i, *a)
    if k == 4:
        return lambda o, *p: o.add_ml(*p, i, *a)
    if k == 5:
        return lambda o, *p: o.add_trap(*p, i, *a[:2], **dict(zip(("a", "c"), a[2:])))
    return lambda o, *p: o.add_ic(*p, i, a if len(a) > 1 else a[0])


def apply(pc, c, lc, ba, o):
    """perform the call; returns the collection now looked at"""
    rows = lm_of(o["rows"])
    n = name(o["n"]) if o["n"] else None
    w = [micro(x) for x in o["arg"]]
    mine = copy.deepcopy(rows)
    what = o["name"]
    kw = given(o)
    kw0 = copy.deepcopy(kw)
    if what in ("add", "append", "append_raw", "extend", "add_span_udl") and not o["ok"]:
        before = lc.cases
        fn = {"add": lambda: lc.add_case(n, rows), "append": lambda: lc.append(pc.LoadCase(n, rows)),
              "append_raw": lambda: lc.append(rows),
              "extend": lambda: lc.extend([pc.LoadCase(name(m["name"]), lm_of(m["rows"])) for m in o["more"]]),
              "add_span_udl": lambda: lc.add_span_udl(w[0])}[what]
        refused(c, "a duplicate name", ValueError, fn)
        c.true("a refused call replaced the cases", len(lc.cases) == len(before) and all(a is b for a, b in zip(lc.cases, before)))
    elif what == "add":
        got = (lc.add_case if len(rows) % 2 else lc.add)(n, rows, **kw)
        c.true("add() does not return the stored case", got is lc.case(n, create=False))
    elif what == "set":
        got = lc.set(n, rows, **kw)
        c.true("set() does not return the stored case", got is lc.case(n, create=False))
    elif what == "append":
        src = pc.LoadCase(n, rows, **kw) if len(rows) % 2 else {"name": n, "loads": rows, **kw}
        got = lc.append(src)
        c.true("the stored case is the caller's own object", got is not src and got is lc[-1])
    elif what == "append_raw":
        lc.append(rows)
    elif what == "add_load":
        how = (int(abs(rows[0][2])) // 3 + rows[0][0] + len(lc)) % 3
        if how == 0 or (rows[0][1] == 5 and len(rows[0]) == 5):  # to the end of the span: as a row only
            lc.add_load(n, rows[0])
        elif how == 1 or n not in lc.names:
            single(lc, 0, rows[0])(lc, n)
        else:
            case = lc.case(n)
            got = single(lc, 0, rows[0])(case)
            c.true("the call on a case returns the case", got is case)
    elif what == "extend":
        src = [pc.LoadCase(name(m["name"]), lm_of(m["rows"]), **given(m)) for m in o["more"]]
        lc.extend(src)
        for s in src:
            spoil(s.loads)
            forget({"metadata": s.metadata} if s.metadata else {})
            s.name = "spoilt"
    elif what == "add_span_udl":
        got = lc.add_span_udl(w[0])
        c.equal("add_span_udl() returns", [g.name for g in got], [name(200 + i) for i in range(1, len(got) + 1)])
    elif what == "add_all_spans_udl":
        if n in lc.names and w[0] > 0:
            c.true("add_all_spans_udl() on a case returns the case", lc.case(n).add_all_spans_udl(ba, w[0]) is lc.case(n))
        else:
            lc.add_all_spans_udl(n, w[0])
    elif what == "add_segment_udl":
        if o["ok"] and n in lc.names and len(lc) % 2:
            case = lc.case(n)
            got = case.add_segment_udl(ba if w[2] > 0 else ba.beam, w[0], w[1], w[2])
            c.true("add_segment_udl() on a case returns the case", got is case)
        elif o["ok"]:
            lc.add_segment_udl(n, w[0], w[1], w[2])
        else:
            refused(c, f"segment [{w[0]}, {w[1]}]", ValueError, lambda: lc.add_segment_udl(n, w[0], w[1], w[2]))
    elif what == "add_trap_without_cover":
        refused(c, "a trapezoid without cover", ValueError, lambda: lc.add_trap(n, 1, 1.0, 2.0, a=0.5))
        refused(c, "a trapezoid from the support without cover", ValueError, lambda: lc.add_trap(n, 1, 1.0, 2.0, a=0))
    elif what == "add_ic_nonsense":
        refused(c, "a curvature that is no number", (ValueError, TypeError), lambda: lc.add_ic(n, 1, "curved"))
    elif what == "look":
        if o["ok"]:
            c.equal("case() finds", lc.case(n, create=False).name, n)
        else:
            refused(c, f"unknown case {n!r}", KeyError, lambda: lc.case(n, create=False))
    elif what == "make_patterned_udl":
        k = int(o["arg"][0])
        if o["ok"]:
            return pc.make_patterned_udl(ba, w[1], k)
        for bad in (k, float(max(k, 2)) + 0.5, True):
            refused(c, f"{bad!r} segments", ValueError, lambda: pc.make_patterned_udl(ba, w[1], bad))
    elif what == "make_span_udl_cases":
        return pc.make_span_udl_cases(ba, w[0])
    elif what == "new":
        return pc.LoadCases(ba)
    else:
        raise AssertionError(what)
    c.true(f"{what} changed the caller's loads", rows == mine)
    c.true(f"{what} changed the caller's note", kw == kw0)
    spoil(rows)
    forget(kw)
    return lc


def look(pc, c, lc, st):
    """contents, and that what is handed out is not what is kept"""
    want = [(name(m["name"]), lm_of(m["rows"])) for m in st["cases"]]
    c.equal("number of cases", len(lc), len(want))
    c.equal("names", lc.names, tuple(n for n, _ in want))
    c.equal("cases", tuple(m.name for m in lc.cases), lc.names)
    c.equal("iteration", [m.name for m in lc], list(lc.names))
    d = lc.to_LM()
    c.equal("to_LM names", tuple(d), lc.names)
    for k, (n, rows) in enumerate(want):
        c.true(f"loads of {n!r}: {lc[k].loads}, expected {rows}", same_rows(lc[k].loads, rows))
        c.true(f"to_LM of {n!r}", same_rows(d[n], rows) and same_rows(lc[k].to_LM(), rows))
        noted(c, [micro(x["L"]) for x in st["beam"]["spans"]], lc[k], st["cases"][k])
        spoil(d[n])
        spoil(lc[k].to_LM())
        c.true(f"to_LM of {n!r} hands out the stored loads", same_rows(lc[k].loads, rows))
    c.equal("load positions", lc.load_positions(), [1 << k for k in range(len(want))])


def density(st):
    """foundation members are meshed; they need a fine grid to be exact"""
    return 30 * NS if any(s["kf"] for s in st["beam"]["spans"]) else NS


def solved(pc, st, rows):
    kw = beam_args(st["beam"])
    ba = pc.BeamAnalysis(LM=rows, **kw)
    ba.analyze(density(st))
    return ba.beam_results


def reader(pc, st):
    """function picking, from an array over the library's grid, the values at
    the stations of the model"""
    b = st["beam"]
    # stations of the model within the library's grid (foundation members are
    # reported on their own mesh, so values are read off by interpolation there)
    ends, i0, wt, start = np.cumsum([0.0] + [micro(s["L"]) for s in b["spans"]]), [], [], 0
    for i, v in enumerate(solved(pc, st, []).vRes):
        xs = np.asarray(v.x[1:-1])
        for k in range(NS + 1):
            X = ends[i] + (ends[i + 1] - ends[i]) * k / NS
            j = min(max(int(np.searchsorted(xs, X - 1e-9)), 0), len(xs) - 1)
            j0 = max(j - 1, 0) if xs[j] > X + 1e-9 else j
            wt.append(0.0 if j0 == j else (X - xs[j0]) / (xs[j] - xs[j0]))
            i0.append(start + 1 + j0)
        start += len(v.x)
    i0, wt = np.array(i0), np.array(wt)
    i1 = np.where(wt > 0, i0 + 1, i0)

    def on(a):
        a = np.asarray(a, float)
        return a[..., i0] * (1 - wt) + a[..., i1] * wt


    on.index = i0
    return on


def examine(pc, c, lc, ba, st, combos):
    p = st["probe"]
    b = st["beam"]
    founded = any(s["kf"] for s in b["spans"])
    rel = 6e-3 if founded else 2e-3 if any(s["ga"] or len(s["ei"]) > 1 or len(s["ei"][0]["ys"]) > 1 for s in b["spans"]) else 1e-7
    np_ = density(st)
    on = reader(pc, st)
    idx = on.index
    want = {"M": np.array([[pico(x) for x in e["m"]] for e in p["eff"]]), "V": np.array([[pico(x) for x in e["v"]] for e in p["eff"]])}
    summ = {"M": np.array([pico(x) for x in p["sum"]["m"]]), "V": np.array([pico(x) for x in p["sum"]["v"]])}
    joint = {"M": np.array([pico(x) for x in p["joint"]["m"]]), "V": np.array([pico(x) for x in p["joint"]["v"]])}
    f = np.array(p["f"]) / 1000
    tol = {q: rel * (1 + np.abs(want[q]).max() * (1 + np.abs(f).sum())) for q in "MV"}
    # scale differences: a member may carry little shear and much moment
    tol["V"] = max(tol["V"], rel * (1 + np.abs(want["M"]).max()) * (1 + np.abs(f).sum()))

    def near(what, got, exp, t):
        got = np.asarray(got, float)
        c.true(f"{what}: shape {got.shape} for {exp.shape}", got.shape == exp.shape)
        bad = np.argwhere(~(np.abs(got - exp) <= t))
        if len(bad):
            j = tuple(bad[0])
            c(f"{what} at entry {j}", got[j], exp[j], t)
        c.stats["cmp"] += got.size

    # response matrix and each case on its own
    for q in "MV":
        x, B = lc.response_matrix({"M": "m", "V": "shear"}[q])
        near(f"response matrix {q}", on(B), want[q], tol[q])
    for q in ("deflection", "R"):
        x, B = lc.response_matrix(q)
        for k, m in enumerate(st["cases"]):
            br = solved(pc, st, lm_of(m["rows"]))
            c.true(f"response matrix {q} row {k}", np.allclose(B[k], br.results.D if q[0] == "d" else br.results.R, rtol=1e-9, atol=1e-13)
                   and np.array_equal(x, br.results.x))
    # a collection on a bare beam, which says nothing of stations, uses the usual number
    x, B = pc.LoadCases(ba.beam, lc).response_matrix("M")
    for k, m in enumerate(st["cases"]):
        plain = pc.BeamAnalysis(LM=lm_of(m["rows"]), **beam_args(b))
        plain.analyze()
        c.true(f"response matrix of the bare beam, row {k}", B[k].shape == plain.beam_results.results.M.shape
               and np.allclose(B[k], plain.beam_results.results.M, rtol=1e-9, atol=1e-9) and np.array_equal(x, plain.beam_results.results.x))
    c.true("the template beam was changed", same_rows(ba.beam.loads, [[1, 1, 123.0]]))
    if not combos:
        return
    # factors in all their forms
    names = lc.names
    vec = list(f)
    byname = {names[k]: vec[k] for k in range(len(vec)) if vec[k] != 0}
    byidx = {k: vec[k] for k in reversed(range(len(vec))) if vec[k] != 0}
    mixed = {(names[k] if k % 2 else k): vec[k] for k in range(len(vec))}
    combo = pc.LoadCombination("uls", vec)
    named = pc.LoadCombination("sls", dict(byname), metadata={"k": [1]})
    loads = lm_of(p["loads"])
    for what, form in (("vector", vec), ("tuple", tuple(vec)), ("names", byname), ("indices", byidx), ("mixed", mixed),
                       ("combination", combo), ("named combination", named)):
        c.true(f"factors by {what}: {lc.factors(form)}", np.allclose(lc.factors(form), f, rtol=0, atol=1e-15))
        for q in "MV":
            if what in ("vector", "names", "named combination"):
                near(f"combination by {what} {q}", on(lc.combine(form, response=q)[1]), summ[q], tol[q])
        c.true(f"combined loads by {what}", same_rows(lc.combined_loads(form), loads))
    two = np.vstack([f, f[::-1], 2 * f])
    near("several combinations", on(lc.linear_combination(two)[1]), two @ want["M"], tol["M"] * 2)
    refused(c, "too many factors", ValueError, lambda: lc.factors(vec + [1.0]))
    refused(c, "too few factors", ValueError, lambda: lc.factors(np.zeros((2, len(vec) + 1))))
    refused(c, "factors of an unknown case", KeyError, lambda: lc.factors({"nobody": 1.0}))
    refused(c, "joint loads of several combinations", ValueError, lambda: lc.combined_loads(two))
    refused(c, "a combination without cases", ValueError, lambda: combo.to_LM())
    refused(c, "an unknown response", ValueError, lambda: lc.response_matrix("torsion"))
    for what, an in (("analyze_combination", lc.analyze_combination(byname)), ("LoadCombination.analyze", combo.analyze(lc))):
        for q in "MV":
            near(f"{what} {q}", on(getattr(an.beam_results.results, q)), joint[q], tol[q])
    near("LoadCombination.response", on(named.response(lc, response="V")[1]), summ["V"], tol["V"])
    case = named.to_load_case(lc)
    c.true("LoadCombination.to_load_case", case.name == "sls" and same_rows(case.loads, loads) and case.metadata == {"k": [1]})
    case.metadata["k"].append(2)
    spoil(case.loads)
    spoil(named.to_LM(lc))
    c.true("a combination hands out its own data", named.metadata == {"k": [1]} and named.factors == byname)
    en = combo.envelope(lc)
    near("envelope of one combination Mmax", on(en.Mmax), np.maximum(joint["M"], 0), tol["M"])
    near("envelope of one combination Mmin", on(en.Mmin), np.minimum(joint["M"], 0), tol["M"])
    # envelope of the cases (an envelope always includes the unloaded beam)
    hi, lo = p["hi"], p["lo"]
    for what, env in (("envelope", lc.envelope()), ("envelope of the bare beam", pc.LoadCases(ba.beam, lc).envelope(np_))):
        for q, k in (("M", "m"), ("V", "v")):
            near(f"{what} {q}max", on(getattr(env, q + "max")), np.maximum([pico(x) for x in hi[k]], 0), tol[q])
            near(f"{what} {q}min", on(getattr(env, q + "min")), np.minimum([pico(x) for x in lo[k]], 0), tol[q])
    # several governing cases together, and any selection
    q = p["resp"]
    x, B = lc.response_matrix(q)
    B0 = B.copy()
    n = p["addN"]
    for what, mat, cols in (("library's effects", B, on), ("exact effects", want[q], np.asarray)):
        neg, pos, ineg, ipos = pc.load_cases.additive_envelope(mat, n)
        near(f"additive envelope of {n}, {what}, largest", cols(pos), np.array([pico(x) for x in p["add_hi"]]), n * tol[q])
        near(f"additive envelope of {n}, {what}, smallest", cols(neg), np.array([pico(x) for x in p["add_lo"]]), n * tol[q])
        for idxs, env in ((ineg, neg), (ipos, pos)):
            c.true(f"additive envelope of {n}: governing cases", idxs.shape == (n, mat.shape[1])
                   and all(len(set(idxs[:, j])) == n for j in range(mat.shape[1]))
                   and np.allclose(np.take_along_axis(mat, idxs, axis=0).sum(axis=0), env, rtol=1e-12, atol=1e-9))
        places = lc.load_positions()
        for given in (None, places, [p2 << 3 for p2 in places]):
            neg, pos, mneg, mpos = pc.load_cases.sign_selective_envelope(mat, given)
            near(f"sign-selective envelope, {what}, largest", cols(pos), np.array([pico(x) for x in p["sel_hi"]]), len(mat) * tol[q])
            near(f"sign-selective envelope, {what}, smallest", cols(neg), np.array([pico(x) for x in p["sel_lo"]]), len(mat) * tol[q])
            sh = 3 if given is not None and given[0] > 1 else 0
            js = list(idx) if cols is on else list(range(mat.shape[1]))
            for kk, j in enumerate(js):
                for k in range(len(mat)):
                    v = want[q][k][kk]
                    if abs(v) > 10 * tol[q]:
                        c.true(f"sign-selective positions of case {k}, {what}, entry {j}",
                               bool(int(mpos[j]) >> (k + sh) & 1) == (v > 0) and bool(int(mneg[j]) >> (k + sh) & 1) == (v < 0))
    c.true("an envelope changed the response matrix", np.array_equal(B, B0))
    refused(c, "an envelope of more cases than there are", ValueError, lambda: pc.load_cases.additive_envelope(B, len(B) + 1))
    refused(c, "an envelope of a single row", ValueError, lambda: pc.load_cases.additive_envelope(B[0], 1))
    refused(c, "a sign-selective envelope of a single row", ValueError, lambda: pc.load_cases.sign_selective_envelope(B[0], [1]))
    refused(c, "an envelope of no cases", ValueError, lambda: pc.load_cases.additive_envelope(B, 0))
    refused(c, "missing load positions", ValueError, lambda: pc.load_cases.sign_selective_envelope(B, [1] * (len(B) + 1)))
    # target combination
    i, k = divmod(p["station"], NS + 1)
    L = [micro(s["L"]) for s in b["spans"]]
    X = sum(L[:i]) + L[i] * (k + p["quarter"] / 4) / NS
    at = [pico(v) / 4 for v in p["at"]]
    for sense, s in (("min", -1), ("max", 1), ("Sagging", 1), ("negative", -1)):
        t = lc.target_combination("t", X, sense=sense, response=q, selected_factor=1.5, unselected_factor=0.25)
        fv = t.factor_vector()
        sel = set(t.metadata["selected_indices"])
        for j, v in enumerate(at):
            c.between(f"target effect of case {j} ({q} at {X})", t.metadata["target_values"][j], v, v, 3 * tol[q])
            if abs(v) > 10 * tol[q]:
                c.equal(f"target {sense} {q} at {X}: factor of case {j} (effect {v:.4g})", fv[j], 1.5 if v * s > 0 else 0.25)
                c.equal(f"target {sense} {q} at {X}: case {j} reported as selected", j in sel, v * s > 0)
        c.equal("name of the combination and what it notes of the target",
                (t.name, t.metadata["x"], t.metadata["response"], t.metadata["sense"]), ("t", X, q, sense))
        c.equal("target names", t.metadata["selected_names"], [names[j] for j in sorted(sel)])
        c.true("target combination's own loads", same_rows(t.to_LM(), lc.combined_loads(list(fv))))
    near("target combination response", on(t.response(response="M")[1]), np.asarray(fv) @ want["M"], tol["M"] * 4)
    refused(c, "an unknown sense", ValueError, lambda: lc.target_combination("t", X, sense="sideways"))
    refused(c, "a target beyond the beam", ValueError, lambda: lc.target_combination("t", sum(L) * 1.01))
    refused(c, "a target before the beam", ValueError, lambda: lc.target_combination("t", -0.01 * sum(L)))


def replay(label, states, stats, combos=True):
    import pycba as pc

    hist = []
    st0 = states[0]
    own = [[1, 1, 123.0]]
    ba = pc.BeamAnalysis(LM=own, **beam_args(st0["beam"]))
    ba.npts = density(st0)
    lc = pc.LoadCases(ba)
    for st in states[1:]:
        o = st["op"]
        stats["actions"][o["name"]] = stats["actions"].get(o["name"], 0) + 1
        text = f"{o['name']}({name(o['n']) + ', ' if o['n'] else ''}{lm_of(o['rows']) or ''}{[micro(x) for x in o['arg']] or ''}{[(name(m['name']), lm_of(m['rows'])) for m in o['more']] or ''})" + ("" if o["ok"] else " [to be refused]")
        hist.append(text)
        c = Cmp(stats, f"{beam_repr(st)}: {'; '.join(hist[-7:])}: ")
        if o["name"] == "examine":
            examine(pc, c, lc, ba, st, combos)
        else:
            lc = apply(pc, c, lc, ba, o)
        if not combos:
            look(pc, c, lc, st)
    if stats["sample"] is None and len(hist) > 5:
        stats["sample"] = {"beam": beam_repr(states[-1]), "calls": hist[:12]}
