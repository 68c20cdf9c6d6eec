/// A collection of named load cases on one beam: what it holds after any
/// history of operations (including refused ones), and what every combination
/// and envelope of those cases is.
module load_cases {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"
  import effects.* from "./effects"

  /// names are codes: 1..9 given by the user, 100+k "LC k", 200+i "UDL on span i",
  /// 1000*i+k "UDL span i segment k"
  /// spans: the spans a case is declared to load; note: what is noted with it
  /// (0 nothing, 1.. the caller's note, -1 a span's case, -2 a segment's case)
  type Case = { name: int, rows: List[Row], spans: List[int], note: int }
  pure def plain(n: int, rows: List[Row]): Case = { name: n, rows: rows, spans: [], note: 0 }
  type Call = { name: str, ok: bool, n: int, rows: List[Row], more: List[Case], arg: List[int], spans: List[int], note: int }
  type Probe = {
    eff: List[Effect],            // each case on its own
    f: List[int],                 // factors (milli)
    sum: Effect,                  // factored sum of the case effects
    loads: List[Row],             // the factored loads, and their joint effect
    joint: Effect,
    hi: Effect, lo: Effect,       // envelope of the cases
    addN: int, add_hi: List[int], add_lo: List[int],      // n governing cases together
    sel_hi: List[int], sel_lo: List[int],                 // any selection of cases
    quarter: int, station: int, resp: str, at: List[int], // effect of each case at a place (x4)
  }
  pure val noProbe: Probe = { eff: [], f: [], sum: noEffect, loads: [], joint: noEffect, hi: noEffect, lo: noEffect,
    addN: 0, add_hi: [], add_lo: [], sel_hi: [], sel_lo: [], quarter: 0, station: 0, resp: "", at: [] }
  pure def call(name: str): Call = { name: name, ok: true, n: 0, rows: [], more: [], arg: [], spans: [], note: 0 }

  // ---- the collection ------------------------------------------------------------
  pure def has(cs: List[Case], n: int): bool = cs.foldl(false, (b, c) => b or c.name == n)
  /// add several cases, or none if any name is taken
  pure def addAll(cs: List[Case], more: List[Case]): { ok: bool, cs: List[Case] } = {
    val r = more.foldl({ ok: true, cs: cs }, (a, c) =>
      if (not(a.ok) or has(a.cs, c.name)) { ok: false, cs: a.cs } else { ok: true, cs: a.cs.append(c) })
    if (r.ok) r else { ok: false, cs: cs }
  }
  pure def putCase(cs: List[Case], m: Case): List[Case] =
    if (not(has(cs, m.name))) cs.append(m)
    else cs.foldl([], (a, c) => a.append(if (c.name == m.name) m else c))
  pure def grow(cs: List[Case], n: int, rows: List[Row]): List[Case] =
    if (not(has(cs, n))) cs.append(plain(n, rows))
    else cs.foldl([], (a, c) => a.append(if (c.name == n) { ...c, rows: c.rows.concat(rows) } else c))
  pure def everySpan(b: Beam, w: int): List[Row] =
    range(0, b.spans.length()).foldl([], (a, i) => a.append([i + 1, 1, w]))
  pure def spanCases(b: Beam, w: int): List[Case] =
    range(0, b.spans.length()).foldl([], (a, i) => a.append({ name: 200 + i + 1, rows: [[i + 1, 1, w]], spans: [i], note: -1 }))
  pure def segment(b: Beam, x0: int, x1: int, w: int): List[Row] =
    range(0, b.spans.length()).foldl([], (a, i) => {
      val s = nodeX(b, i)
      val L = b.spans[i].L
      val p = imax(x0, s)
      val q = imin(x1, s + L)
      if (q <= p) a
      else if (p == s and q == s + L) a.append([i + 1, 1, w])
      else a.append([i + 1, 3, w, p - s, q - p]) })
  pure def patterned(b: Beam, n: int, w: int): List[Case] =
    range(0, b.spans.length()).foldl([], (a, i) =>
      range(0, n).foldl(a, (z, k) =>
        z.append({ name: 1000 * (i + 1) + k + 1, rows: [[i + 1, 3, w, b.spans[i].L / n * k, b.spans[i].L / n]], spans: [i], note: -2 })))

  var beam: Beam
  var cases: List[Case]
  var op: Call
  var probe: Probe

  pure def probeOf(b: Beam, cs: List[Case], f: List[int], n: int, resp: str, station: int, quarter: int): Probe = {
    val eff = cs.foldl([], (a, c) => a.append(effectOf(b, c.rows)))
    val ms = eff.foldl([], (a, e) => a.append(e.m))
    val vs = eff.foldl([], (a, e) => a.append(e.v))
    val pick = if (resp == "M") ms else vs
    val loads = range(0, cs.length()).foldl([], (a, i) =>
      if (f[i] == 0) a else cs[i].rows.foldl(a, (z, r) => z.append(scaleRow(r, f[i]))))
    val single = selections(cs.length(), 1)
    val ns = selections(cs.length(), n)
    val any_ = selections(cs.length(), -1)
    val np = ms[0].length()
    pure def weighted(rows: List[List[int]]): List[int] =
      range(0, np).foldl([], (a, j) => a.append(range(0, cs.length()).foldl(0, (s, i) => s + f[i] * rows[i][j]) / 1000))
    { eff: eff, f: f, sum: { m: weighted(ms), v: weighted(vs) },
      loads: loads, joint: effectOf(b, loads),
      hi: { m: extreme(ms, single, 1), v: extreme(vs, single, 1) },
      lo: { m: extreme(ms, single, -1), v: extreme(vs, single, -1) },
      addN: n, add_hi: extreme(pick, ns, 1), add_lo: extreme(pick, ns, -1),
      sel_hi: extreme(pick, any_, 1), sel_lo: extreme(pick, any_, -1),
      quarter: quarter, station: station, resp: resp,
      at: pick.foldl([], (a, row) => a.append((4 - quarter) * row[station] + (if (quarter == 0) 0 else quarter * row[station + 1]))) }
  }

  // ---- beams ------------------------------------------------------------------------
  pure val LEN = Set(4000000, 8000000, 10000000, 16000000, 20000000)
  action install(b: Beam): bool = all {
    solveBeam(b, []).ok, beam' = b, cases' = [], op' = call("new"), probe' = noProbe }
  action init = {
    nondet fam = 0.to(6).oneOf()
    nondet n = Set(1, 2, 2).oneOf()
    nondet L = 0.to(1).setOfMaps(LEN).oneOf()
    nondet ei = 0.to(1).setOfMaps(RIGID).oneOf()
    nondet et = 0.to(1).setOfMaps(Set(-1, 0, 1, 2, 3)).oneOf()
    nondet sup = 0.to(2).setOfMaps(Set(1, 2, 6, 8, 9, 10)).oneOf()
    nondet dk = 0.to(2).setOfMaps(0.to(7)).oneOf()
    nondet pat = 0.to(1).setOfMaps(1.to(5)).oneOf()
    nondet kf = 0.to(1).setOfMaps(Set(0, 1500000000, 12000000000)).oneOf()
    val e = et.keys().mapBy(k => if (fam == 3) 1 else imax(1, et.get(k)))
    val d = dk.keys().mapBy(k => if (sup.get(k) > 7) 0 else dk.get(k))
    val b = mkBeam(n, L, ei, e, if (n == 1) sup.setBy(0, s => 6) else sup, 4000000000, 30000000000, d)
    val spans = range(0, n).foldl([], (acc, i) => acc.append(
      if (fam == 1) { ...b.spans[i], ei: pattern(pat.get(i), L.get(i), ei.get(i)) }
      else if (fam == 2) { ...b.spans[i], ga: constSec(L.get(i), 900000000 * pat.get(i)) }
      else if (fam == 3) { ...b.spans[i], kf: kf.get(i) }
      else b.spans[i]))
    val full = { ...b, spans: spans }
    // an unstable choice becomes a plain continuous beam
    install(if (solveBeam(full, []).ok) full
            else { ...mkBeam(n, L, ei, Map(0 -> 1, 1 -> 1), Map(0 -> 6, 1 -> 1, 2 -> 1), 1, 1, Map(0 -> 0, 1 -> 0, 2 -> 0)), spans: full.spans.foldl([], (a, s) => a.append({ ...s, et: 1 })) })
  }

  // ---- operations --------------------------------------------------------------------
  pure val MAXC = 4
  pure val KINDS = Set(1, 2, 3, 4, 5, 6, 7, 8, 9)
  pure def founded(b: Beam): bool = b.spans.foldl(false, (x, s) => x or s.kf > 0)
  pure def kindFor(b: Beam, k: int): int = if (founded(b)) 1 + k % 3 else k
  pure def someRow(b: Beam, i: int, k: int, w: int, w2: int, a: int, c: int): Row =
    rowOf(b, if (i < b.spans.length()) i else 0, kindFor(b, k), w, w2, a, c)

  /// the state after call o left the collection cs
  action after(o: Call, cs: List[Case]): bool = all { beam' = beam, cases' = cs, op' = o, probe' = noProbe }

  action give = {
    nondet how = 0.to(4).oneOf()
    nondet n = 1.to(4).oneOf()
    nondet i = Set(0, 1).oneOf()
    nondet k = 0.to(1).setOfMaps(KINDS).oneOf()
    nondet w = Set(-32000000, 12000000, 48000000).oneOf()
    nondet w2 = Set(-18000000, 0, 27000000).oneOf()
    nondet a = Set(0, 110, 310, 470, 613).oneOf()
    nondet c = Set(110, 310, 950).oneOf()
    nondet many = 0.to(2).oneOf()
    nondet note = (-1).to(2).oneOf()
    nondet both = Set(0, 1).oneOf()
    // a couple or point load right at an end is not placed (a station is there)
    val aa = if (a == 0) 50 else a
    val rows = [someRow(beam, i, k.get(0), w, w2, aa, c), someRow(beam, 1 - i, k.get(1), -w / 2, w2, 950 - aa, c)].slice(0, many)
    val m = { name: n, rows: rows, spans: if (note <= 0) [] else if (both == 1) [0, 1] else [i], note: if (note < 0) 0 else note }
    val o = { ...call("add"), n: n, rows: rows, spans: m.spans, note: m.note }
    if (how == 0) {
      val r = addAll(cases, [m])
      after({ ...o, ok: r.ok }, r.cs)
    } else if (how == 1) after({ ...o, name: "set" }, putCase(cases, m))
    else if (how == 2) {
      val r = addAll(cases, [m])
      after({ ...o, name: "append", ok: r.ok }, r.cs)
    } else if (how == 3) {
      val r = addAll(cases, [plain(101 + cases.length(), rows)])
      after({ ...call("append_raw"), ok: r.ok, rows: rows }, r.cs)
    } else after({ ...call("add_load"), n: n, rows: [rows.concat([someRow(beam, i, k.get(0), w, w2, aa, c)])[0]] },
                 grow(cases, n, [rows.concat([someRow(beam, i, k.get(0), w, w2, aa, c)])[0]]))
  }
  action extend = {
    nondet n = 0.to(2).setOfMaps(1.to(5)).oneOf()
    nondet how = 1.to(3).oneOf()
    nondet k = 0.to(2).setOfMaps(KINDS).oneOf()
    nondet w = Set(-32000000, 12000000).oneOf()
    val more = range(0, how).foldl([], (acc, j) =>
      acc.append({ ...plain(n.get(j), [someRow(beam, j % 2, k.get(j), w, 27000000, 310, 470)]), spans: if (j > 0) [j % 2] else [], note: j }))
    val r = addAll(cases, more)
    after({ ...call("extend"), ok: r.ok, more: more }, r.cs)
  }
  action spanwise = {
    nondet w = Set(-12000000, 24000000).oneOf()
    val r = addAll(cases, spanCases(beam, w))
    after({ ...call("add_span_udl"), ok: r.ok, arg: [w] }, r.cs)
  }
  action allSpans = {
    nondet n = 1.to(4).oneOf()
    nondet w = Set(-12000000, 24000000).oneOf()
    after({ ...call("add_all_spans_udl"), n: n, arg: [w] }, grow(cases, n, everySpan(beam, w)))
  }
  /// ends of the segment in 1/16 of the total length (some outside or reversed)
  action seg = {
    nondet n = 1.to(4).oneOf()
    nondet a = Set(-1, 0, 0, 2, 5, 9).oneOf()
    nondet z = Set(1, 5, 8, 11, 16, 16, 17).oneOf()
    nondet w = Set(-12000000, 24000000).oneOf()
    val T = totalL(beam)
    val ok = a >= 0 and z <= 16 and z > a
    after({ ...call("add_segment_udl"), ok: ok, n: n, arg: [T / 16 * a, T / 16 * z, w] },
          if (ok) grow(cases, n, segment(beam, T / 16 * a, T / 16 * z, w)) else cases)
  }
  action badTrap = {
    nondet n = 1.to(5).oneOf()
    after({ ...call("add_trap_without_cover"), ok: false, n: n }, cases)
  }
  action badIc = {
    nondet n = 1.to(5).oneOf()
    after({ ...call("add_ic_nonsense"), ok: false, n: n }, cases)
  }
  action look = {
    nondet n = Set(1, 2, 3, 4, 5, 201).oneOf()
    after({ ...call("look"), ok: has(cases, n), n: n }, cases)
  }
  action newPattern = {
    nondet n = Set(-1, 0, 1, 2, 2).oneOf()
    nondet w = Set(-12000000, 24000000).oneOf()
    after({ ...call("make_patterned_udl"), ok: n > 0, arg: [n, w] }, if (n > 0) patterned(beam, n, w) else cases)
  }
  action newSpans = {
    nondet w = Set(-12000000, 24000000).oneOf()
    after({ ...call("make_span_udl_cases"), arg: [w] }, spanCases(beam, w))
  }
  action change = all { cases.length() <= MAXC,
    any { give, give, extend, spanwise, allSpans, seg, badTrap, badIc, look, newPattern, newSpans } }
  action shrink = all { cases.length() > MAXC, newSpans }

  action examine = all {
    cases.length() > 0,
    {
      nondet f = 0.to(7).setOfMaps(Set(-1000, 0, 500, 1000, 1500, 2000)).oneOf()
      nondet n = 1.to(3).oneOf()
      nondet resp = Set("M", "V").oneOf()
      nondet i = Set(0, 1).oneOf()
      nondet st = 0.to(7).oneOf()
      nondet q = 0.to(3).oneOf()
      val ii = if (i < beam.spans.length()) i else 0
      // not in the first interval after a joint, where the effect may jump
      val s0 = if (ii > 0 and st == 0) 1 else st
      all {
        beam' = beam, cases' = cases, op' = call("examine"),
        probe' = probeOf(beam, cases, range(0, cases.length()).foldl([], (a, k) => a.append(f.get(k % 8))),
                         imin(n, cases.length()), resp, (NS + 1) * ii + s0,
                         if (founded(beam)) 0 else q)
      }
    }
  }
  action step = any { change, change, shrink, examine }
  action stepExamine = any { change, shrink, examine }

  // ---- what holds of the model --------------------------------------------------------
  val uniqueNames = cases.foldl({ ok: true, seen: Set() }, (a, c) =>
    { ok: a.ok and not(a.seen.contains(c.name)), seen: a.seen.union(Set(c.name)) }).ok
  /// numerical integration of variable rigidity is good to some 1e-7
  pure val EPS = 10000000000
  pure def base(b: Beam): Effect = effectOf(b, [])
  /// factored cases act like the factored loads (the settlement counted once)
  val jointIsSum = probe.eff.length() == 0 or {
    val z = base(beam)
    val t = lsum(probe.f)
    range(0, z.m.length()).foldl(true, (ok, j) => ok and
      iabs(probe.sum.m[j] - probe.joint.m[j] - (t - 1000) * z.m[j] / 1000) < EPS)
  }
  /// selections: the empty one is allowed, and no single case exceeds them
  val selectionsBound = probe.eff.length() == 0 or
    (range(0, probe.sel_hi.length()).foldl(true, (ok, j) => ok and probe.sel_hi[j] >= 0 and probe.sel_lo[j] <= 0 and
      probe.add_hi[j] <= probe.sel_hi[j] and probe.add_lo[j] >= probe.sel_lo[j]))
}
