/// Display settings - unit systems and plotting backends - and what every kind
/// of plot shows under them. Settings never touch the results.
module display {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"
  import units.* from "./units"

  /// one curve: the stored quantity drawn, the factor (micro) and which way up
  type Curve = { q: str, scale: int, down: bool }
  /// one set of axes: `word (unit)` on its axis
  type Panel = { word: str, unit: str, curves: List[Curve] }
  /// a support action as drawn (pico), zero ones left out
  type Act = { x: int, f: int, m: int, tf: str, tm: str }
  /// a stretch of the beam
  type Bar = { x0: int, x1: int }
  /// a point of a tendon, positive below the centroid
  type Dip = { x: int, e: int }
  type Sheet = { bars: List[List[Bar]], drape: List[Dip], shown: bool, fails: str, plotly: bool, xword: str, xunit: str, panels: List[Panel], acts: List[Act] }
  type Call = { name: str, kind: str, k: int, style: int, over: int, back: str, ok: bool }

  var dflt: int             // the unit system in force
  var back: str             // the plotting backend in force
  var beam: Beam
  var loads: List[List[Row]]
  var held_: List[List[int]] // support actions of either load list (pico); empty: no solution
  var cur: int              // which list the model was last analysed for; -1: not yet
  var call: Call
  var sheet: Sheet

  pure def nothing(f: str): Sheet =
    { bars: [], drape: [], shown: false, fails: f, plotly: false, xword: "", xunit: "", panels: [], acts: [] }

  // ---- what a plot shows -----------------------------------------------------------
  pure def up(q: str): Curve = { q: q, scale: 1000000, down: false }
  pure def dn(q: str): Curve = { q: q, scale: 1000000, down: true }
  pure def bm(u: Units, cs: List[Curve]): Panel = { word: "Bending Moment", unit: u.moment, curves: cs }
  pure def sf(u: Units, cs: List[Curve]): Panel = { word: "Shear Force", unit: u.force, curves: cs }
  pure def df(u: Units): Panel = { word: "Deflection", unit: u.disp, curves: [{ q: "D", scale: u.scale, down: false }] }
  /// only numbers which are deflections are converted; the rest are as computed
  pure def panelsOf(kind: str, u: Units): List[Panel] =
    if (Set("results", "resultsB", "resultsR").contains(kind)) [bm(u, [dn("M")]), sf(u, [up("V")]), df(u)]
    else if (kind == "bmd" or kind == "overM") [bm(u, [dn("M")])]
    else if (kind == "sfd") [sf(u, [up("V")])]
    else if (kind == "dsd" or kind == "overD") [df(u)]
    else if (kind == "static") [bm(u, [dn("M")]), sf(u, [up("V")])]
    // a frame of the animation: what acts now, within everything so far
    else if (kind == "anim") [bm(u, [dn("M"), dn("soFarMmax"), dn("soFarMmin")]), sf(u, [up("V"), up("soFarVmax"), up("soFarVmin")])]
    else if (kind == "env" or kind == "envelopes") [bm(u, [dn("Mmax"), dn("Mmin")]), sf(u, [up("Vmax"), up("Vmin")])]
    else if (kind == "envEach")
      [bm(u, [dn("Mmax"), dn("Mmin"), dn("M0"), dn("M1")]), sf(u, [up("Vmax"), up("Vmin"), up("V0"), up("V1")])]
    else if (kind == "coincidents")
      [bm(u, [dn("Mmax"), dn("Mmin")]), sf(u, [up("Vmax"), up("Vmin")]),
       { word: "Coincident Shear Force", unit: u.force, curves: [up("Vco_Mmax"), up("Vco_Mmin")] },
       { word: "Coincident Bending Moment", unit: u.moment, curves: [dn("Mco_Vmax"), dn("Mco_Vmin")] }]
    else if (kind == "ratios")
      [{ word: "Bending Moment Ratio", unit: "", curves: [up("rMmax"), up("rMmin")] },
       { word: "Shear Force Ratio", unit: "", curves: [up("rVmax"), up("rVmin")] }]
    else if (kind == "il") [{ word: "Influence Ordinate", unit: "", curves: [up("il")] }]
    else if (kind == "modes") [{ word: "Mode shape", unit: "", curves: [up("mode0"), up("mode1")] }]
    else if (kind == "modesR") [{ word: "Mode shape", unit: "", curves: [up("mode0"), up("mode1"), up("mode2")] }]
    else if (kind == "moments") [bm(u, [dn("final")])]
    else if (kind == "hinges") [{ word: "Load factor $\lambda$", unit: "", curves: [] }]
    else if (kind == "response") [{ word: "Response", unit: "", curves: [up("B0"), up("B1"), up("neg"), up("pos")] }]
    else if (kind == "tendon") [{ word: "Tendon eccentricity", unit: u.length, curves: [] }]
    else []
  pure def actsOf(b: Beam, u: Units, react: List[int]): List[Act] =
    range(0, nNodes(b)).foldl([], (a, i) => {
      val f = if (b.rest[2 * i] != 0) react[2 * i] else 0
      val m = if (b.rest[2 * i + 1] != 0) react[2 * i + 1] else 0
      if (iabs(f) < 1000000 and iabs(m) < 1000000) a
      else a.append({ x: nodeX(b, i), f: f, m: m, tf: u.force, tm: u.moment }) })
  pure val INTERACTIVE = Set("results", "resultsB", "resultsR", "bmd", "sfd", "dsd", "overM", "overD", "env", "envEach")
  pure val OF_ANALYSIS = Set("results", "resultsB", "resultsR", "bmd", "sfd", "dsd", "overM", "overD", "reactions")
  pure def xOf(kind: str): str =
    if (kind == "vehicle") "Position along vehicle"
    else if (kind == "response" or kind == "patterns") "Position along beam"
    else if (kind == "section") "distance along span (local)"
    else "Distance along beam"
  /// plots of numbers the library cannot know the units of
  pure val UNITLESS = Set("response", "patterns", "section")
  /// where a load case loads the beam: under its distributed loads, or (if it
  /// has none) the whole of the spans it acts on
  pure def barsOf(b: Beam, rows: List[Row]): List[Bar] = {
    val d = rows.foldl([], (a, r) => {
      val x0 = nodeX(b, r[0] - 1)
      val L = b.spans[r[0] - 1].L
      pure def bar(p: int, c: int): List[Bar] = if (p < L and c > 0) [{ x0: x0 + p, x1: x0 + imin(L, p + c) }] else []
      a.concat(
        if (r[1] == 1 or (r[1] == 5 and r.length() == 4)) bar(0, L)
        else if (r[1] == 3) bar(r[3], r[4])
        else if (r[1] == 5 and r.length() == 5) bar(r[4], L - r[4])
        else if (r[1] == 5) bar(r[4], r[5])
        else []) })
    if (d.length() > 0) d
    else range(0, b.spans.length()).foldl([], (a, i) =>
      if (rows.foldl(false, (h, r) => h or r[0] == i + 1)) a.append({ x0: nodeX(b, i), x1: nodeX(b, i + 1) }) else a) }
  /// a parabola of given eccentricities at the ends and in the middle of every span
  pure def drapeOf(b: Beam, k: int): List[Dip] =
    range(0, b.spans.length()).foldl([], (a, i) => range(0, 5).foldl(a, (c, j) => {
      val e = dipsOf(i, k)
      val n = b.spans.length()
      pure def loose(node: int): bool = b.rest[2 * node] == 0 and b.rest[2 * node + 1] == 0
      // over an overhang the tendon runs level at the support
      val y =
        if (i == 0 and loose(0)) e[2] + (e[0] - e[2]) * (4 - j) * (4 - j) / 16
        else if (i == n - 1 and loose(n)) e[0] + (e[2] - e[0]) * j * j / 16
        // elsewhere through the points at j = 0, 2, 4 (quarters of the span)
        else (e[0] * (2 - j) * (4 - j) + e[1] * 2 * j * (4 - j) + e[2] * j * (j - 2)) / 8
      c.append({ x: nodeX(b, i) + b.spans[i].L * j / 4, e: y }) }))
  pure def dipsOf(i: int, k: int): List[int] =
    [if (i == 0) -80000 * (k % 3) else -240000, 300000 + 40000 * ((i + k) % 4), if (k % 2 == 0) -240000 else 40000]
  pure def sheetOf(kind: str, u: Units, ply: bool, b: Beam, lists: List[List[Row]], react: List[int], k: int): Sheet = {
    // an interactive figure shows the curves only, without the individual results
    val p = if (ply and kind == "envEach") panelsOf("env", u) else panelsOf(kind, u)
    { bars: if (kind == "patterns") lists.foldl([], (a, l) => a.append(barsOf(b, l))) else [],
      drape: if (kind == "tendon") drapeOf(b, k) else [],
      shown: true, fails: "", plotly: ply, xword: xOf(kind), xunit: if (UNITLESS.contains(kind)) "" else u.length, panels: p,
      acts: if (kind == "reactions" or (kind == "resultsR" and not(ply))) actsOf(b, u, react) else [] } }

  // ---- behaviour ---------------------------------------------------------------------
  pure def call0(n: str): Call = { name: n, kind: "", k: 0, style: 0, over: -1, back: "", ok: true }
  action same = all { beam' = beam, loads' = loads, held_' = held_ }
  pure def solved(b: Beam, rows: List[Row]): List[int] = {
    val s = solveBeam(b, rows)
    if (s.ok) lmap(s.react, x => toPico(x)) else [] }
  action init = {
    nondet n = Set(1, 2, 2, 3).oneOf()
    nondet L = 0.to(2).setOfMaps(LENGTHS).oneOf()
    nondet ei = 0.to(2).setOfMaps(RIGID).oneOf()
    nondet et = 0.to(2).setOfMaps(Set(-1, 0, 1, 2, 3)).oneOf()
    nondet sup = 0.to(3).setOfMaps(Set(0, 1, 1, 2, 6, 8, 9, 10)).oneOf()
    nondet dk = 0.to(3).setOfMaps(0.to(7)).oneOf()
    nondet k = 0.to(3).setOfMaps(1.to(7)).oneOf()
    nondet s = 0.to(3).setOfMaps(0.to(2)).oneOf()
    nondet w = 0.to(3).setOfMaps(Set(-30000000, -4000000, 12000000, 45000000)).oneOf()
    nondet a = 0.to(3).setOfMaps(Set(0, 250, 400, 700)).oneOf()
    val b0 = mkBeam(n, L, ei, lift(et), sup, 2000000000, 40000000000, few(dk))
    pure def row(i: int): Row = rowOf(b0, s.get(i) % n, k.get(i), w.get(i), -9000000, a.get(i), 300)
    val l = [[row(0), row(1)], [row(2), row(3)]]
    all { dflt' = 0, back' = "matplotlib", beam' = b0, loads' = l,
          held_' = [solved(b0, l[0]), solved(b0, l[1])], cur' = -1, call' = call0("init"), sheet' = nothing("") }
  }
  pure def lift(et: int -> int): int -> int = et.keys().mapBy(i => imax(1, et.get(i)))
  pure def few(dk: int -> int): int -> int = dk.keys().mapBy(i => if (dk.get(i) > 2) 0 else dk.get(i))

  action setUnits = {
    nondet k = 0.to(18).oneOf()
    nondet style = 0.to(5).oneOf()
    all { same, dflt' = if (k < 18) NAMES[k]._2 else 5, back' = back, cur' = cur, sheet' = nothing(""),
          call' = { ...call0("units"), k: k, style: style } } }
  action setUnknown = {
    nondet k = 0.to(8).oneOf()
    nondet style = 0.to(5).oneOf()
    all { same, dflt' = dflt, back' = back, cur' = cur, sheet' = nothing("units"),
          call' = { ...call0("units"), k: 100 + k, style: style, ok: false } } }
  action setBackend = {
    nondet b = Set("matplotlib", "plotly", "bokeh", "").oneOf()
    nondet style = 0.to(1).oneOf()
    val good = b == "matplotlib" or b == "plotly"
    all { same, dflt' = dflt, back' = if (good) b else back, cur' = cur,
          sheet' = nothing(if (good) "" else "backend"),
          call' = { ...call0("backend"), back: b, style: style, ok: good } } }
  action analyse = all {
    held_[0].length() > 0,
    analyseAny }
  action analyseAny = {
    nondet k = 0.to(1).oneOf()
    all { same, dflt' = dflt, back' = back, cur' = k, sheet' = nothing(""), call' = { ...call0("analyse"), k: k } } }

  pure val KINDS = Set("results", "resultsB", "resultsR", "bmd", "sfd", "dsd", "overM", "overD", "reactions",
    "env", "envEach", "coincidents", "static", "anim", "anim", "envelopes", "ratios", "il", "modes", "modesR", "moments", "hinges", "collapse", "state", "state", "response", "patterns", "tendon", "section", "vehicle", "beam")
  pure def usable(kind: str, b: Beam, okay: bool): bool =
    if (Set("beam", "vehicle", "moments", "hinges", "collapse", "state", "patterns", "tendon", "section").contains(kind)) true
    else if (OF_ANALYSIS.contains(kind)) true
    else if (kind == "modes" or kind == "modesR") okay and b.spans.foldl(true, (a, s) => a and s.et == 1)
    else okay
  action draw = {
    nondet kind = KINDS.oneOf()
    nondet over0 = (-2).to(5).oneOf()
    nondet bk = Set("", "", "", "matplotlib", "plotly", "gnuplot").oneOf()
    nondet style = 0.to(5).oneOf()
    nondet k = 0.to(8).oneOf()
    val over = if (UNITLESS.contains(kind)) -1 else over0
    val b = if (INTERACTIVE.contains(kind)) bk else ""
    val ply = INTERACTIVE.contains(kind) and (b == "plotly" or (b == "" and back == "plotly"))
    val okay = held_[0].length() > 0
    val s =
      if (not(usable(kind, beam, okay))) nothing("unusable")
      else if (OF_ANALYSIS.contains(kind) and cur < 0) nothing("")
      else if (b == "gnuplot" and over == -2) nothing("either")
      else if (b == "gnuplot") nothing("backend")
      else if (over == -2) nothing("units")
      else sheetOf(kind, SYSTEMS[if (over < 0) dflt else over], ply, beam, loads, if (cur < 0) [] else held_[cur], k)
    all { same, dflt' = dflt, back' = back, cur' = cur, sheet' = s,
          call' = { ...call0("draw"), kind: kind, over: over, back: b, style: style, k: k, ok: s.fails == "" } }
  }
  action step = any { setUnits, setUnits, setUnknown, setBackend, analyse, draw, draw, draw, draw, draw, draw }

  // ---- invariants ----------------------------------------------------------------------
  /// settings change only by being set, to a system that exists
  val settled = and {
    dflt >= 0, dflt < SYSTEMS.length(), Set("matplotlib", "plotly").contains(back),
    (not(call.ok) or call.name == "draw") implies sheet.fails != "" or call.name == "draw" }
  /// every name means one system
  val named = range(0, NAMES.length()).foldl(true, (a, i) => a and
    range(0, NAMES.length()).foldl(true, (c, j) => c and ((NAMES[i]._1 == NAMES[j]._1) implies (i == j)))) and
    UNKNOWN.foldl(true, (a, n) => a and NAMES.foldl(true, (c, p) => c and p._1 != n))
  /// only deflections are scaled, and moments hang on the tension side
  val curves = sheet.panels.foldl(true, (a, p) => a and p.curves.foldl(true, (c, q) => c and
    (q.scale != 1000000 implies q.q == "D") and
    (q.down iff (p.word == "Bending Moment" or p.word == "Coincident Bending Moment"))))
  /// a case that loads anything is seen to, within the beam
  val shaded = range(0, sheet.bars.length()).foldl(true, (a, i) => a and sheet.bars[i].length() > 0 and
    sheet.bars[i].foldl(true, (c, r) => c and 0 <= r.x0 and r.x0 < r.x1 and r.x1 <= nodeX(beam, beam.spans.length())))
  /// the tendon passes through the points it was given
  val draped = range(0, sheet.drape.length()).foldl(true, (a, i) => a and
    (i % 5 == 0 implies sheet.drape[i].e == dipsOf(i / 5, call.k)[0]) and
    (i % 5 == 4 implies sheet.drape[i].e == dipsOf(i / 5, call.k)[2]))
  /// the actions drawn carry the loads
  val carried = {
    val r = if (cur < 0) { f: 0, m: 0 } else resultant(beam, loads[cur])
    val f = sheet.acts.foldl(0, (a, t) => a + t.f)
    val free = range(0, 2 * nNodes(beam)).foldl(true, (a, d) => a and (beam.dset[d] == 0 or beam.rest[d] < 0))
    sheet.acts.length() == 0 or not(free) or iabs(f - toPico(r.f)) < 20000000
  }
}
