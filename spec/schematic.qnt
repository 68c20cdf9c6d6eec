/// What the drawing of a beam and its loads has to show.
module schematic {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"
  import effects.* from "./effects"
  import units.* from "./units"

  /// a support symbol; face: the side its wall faces at a beam end (0 inside)
  type Sup = { node: int, x: int, kind: str, spiral: bool, face: int }
  /// a joint mark: full circle (hinge, or pin at a beam end), half (continuous over a support)
  type Mark = { node: int, x: int, full: bool }
  /// loads: along the whole beam; positive is downward, couples anticlockwise
  type DistG = { x0: int, x1: int, w0: int, w1: int, part: bool }
  type PtG = { x: int, p: int }
  type Picture = { xs: List[int], sups: List[Sup], marks: List[Mark], beds: List[int],
                   dist: List[DistG], pts: List[PtG], cpl: List[PtG] }
  type Call = { name: str, row: Row, case: int, factor: List[int], source: str, back: str, style: int,
                dims: bool, labels: bool, values: bool, sups: bool, sys: int, dflt: int }

  var beam: Beam
  var own: List[Row]
  var cases: List[List[Row]]
  var call: Call
  var shown: List[Row]     // the load rows the picture is of
  var pic: Picture

  // ---- supports ---------------------------------------------------------------
  pure def fixedNode(b: Beam, i: int): bool = b.rest[2 * i] < 0 and b.rest[2 * i + 1] < 0
  pure def anyFixed(b: Beam): bool = range(0, nNodes(b)).foldl(false, (a, i) => a or fixedNode(b, i))
  pure def upright(b: Beam, i: int): bool = b.rest[2 * i] < 0 and b.rest[2 * i + 1] >= 0
  /// the one support which also holds the beam lengthways: the first simple one,
  /// unless an encastre end does so already
  pure def isPin(b: Beam, i: int): bool =
    not(anyFixed(b)) and upright(b, i) and range(0, i).foldl(true, (a, k) => a and not(upright(b, k)))
  pure def kindOf(b: Beam, i: int): str = {
    val v = b.rest[2 * i]
    val r = b.rest[2 * i + 1]
    if (fixedNode(b, i)) "fixed"
    else if (v < 0) (if (isPin(b, i)) "pin" else "roller")
    else if (v > 0) "spring"
    else if (r < 0) "guided"
    else if (r > 0) "torsion"
    else ""
  }
  pure def supsOf(b: Beam): List[Sup] =
    range(0, nNodes(b)).foldl([], (a, i) =>
      if (kindOf(b, i) == "") a
      else a.append({ node: i, x: nodeX(b, i), kind: kindOf(b, i),
                      spiral: b.rest[2 * i + 1] != 0 and Set("pin", "roller", "spring").contains(kindOf(b, i)),
                      face: if (i == 0) -1 else if (i == nNodes(b) - 1) 1 else 0 }))
  pure def hinged(b: Beam, i: int): bool =
    i > 0 and i < nNodes(b) - 1 and (releaseJ(b.spans[i - 1].et) or releaseI(b.spans[i].et))
  pure def marksOf(b: Beam): List[Mark] =
    range(0, nNodes(b)).foldl([], (a, i) => {
      val simple = Set("pin", "roller").contains(kindOf(b, i))
      val last = i == 0 or i == nNodes(b) - 1
      if (hinged(b, i)) a.append({ node: i, x: nodeX(b, i), full: true })
      else if (simple) a.append({ node: i, x: nodeX(b, i), full: last })
      else a })

  // ---- loads ------------------------------------------------------------------
  pure def distOf(b: Beam, r: Row): List[DistG] = {
    val i = r[0] - 1
    val L = b.spans[i].L
    val x = nodeX(b, i)
    // extent asked for, and its intensities
    val a = if (r[1] == 3) r[3] else if (r[1] == 5 and r.length() > 4) r[4] else 0
    val c = if (r[1] == 3) r[4] else if (r[1] == 5 and r.length() > 5) r[5] else L - a
    val wa = r[2]
    val wb = if (r[1] == 5) r[3] else r[2]
    // what lies beyond the span does not act
    if (not(Set(1, 3, 5).contains(r[1])) or a >= L or c <= 0) []
    else {
      val e = imin(a + c, L)
      [{ x0: x + a, x1: x + e, w0: wa, w1: wa + (wb - wa) * (e - a) / c, part: a > 0 or e < L }]
    }
  }
  pure def picture(b: Beam, rows: List[Row]): Picture = {
    xs: range(0, nNodes(b)).foldl([], (a, i) => a.append(nodeX(b, i))),
    sups: supsOf(b), marks: marksOf(b),
    beds: range(0, b.spans.length()).select(i => b.spans[i].kf > 0),
    dist: rows.foldl([], (a, r) => a.concat(distOf(b, r))),
    pts: rows.foldl([], (a, r) => if (r[1] == 2) a.append({ x: nodeX(b, r[0] - 1) + r[3], p: r[2] }) else a),
    cpl: rows.foldl([], (a, r) => if (r[1] == 4) a.append({ x: nodeX(b, r[0] - 1) + r[3], p: r[2] }) else a) }

  // ---- behaviour --------------------------------------------------------------
  pure def call0(n: str): Call = { name: n, row: [], case: 0, factor: [], source: "", back: "", style: 0,
    dims: false, labels: false, values: false, sups: false, sys: 0, dflt: 0 }
  action settle(c: Call): bool = all { call' = c, shown' = shown, pic' = pic }
  action init = {
    nondet n = Set(1, 2, 3, 4, 5, 29).oneOf()
    nondet L = 0.to(28).setOfMaps(LENGTHS).oneOf()
    nondet et = 0.to(28).setOfMaps(1.to(9)).oneOf()
    nondet sup = 0.to(29).setOfMaps(0.to(12)).oneOf()
    nondet bed = 0.to(28).setOfMaps(0.to(8)).oneOf()
    pure def kind(k: int): (int, int) =
      if (k == 12) (2500000000, -1000000) else restOf(k, 1500000000, 30000000000)
    val spans = range(0, n).foldl([], (a, i) => a.append({ ...prismatic(L.get(i), 30000000000, imax(1, et.get(i) - 5)),
                                                           kf: if (bed.get(i) == 0) 5000000000 else 0 }))
    val rest = range(0, n + 1).foldl([], (a, i) => a.append(kind(sup.get(i))._1).append(kind(sup.get(i))._2))
    val b = { spans: spans, rest: rest, dset: lmap(rest, x => 0), disp: lmap(rest, x => 0) }
    all { beam' = b, own' = [], cases' = [[], []], call' = call0("init"), shown' = [], pic' = picture(b, []) }
  }
  pure val MAG = Set(-87500000, -40000000, -12000000, -2500000, 1234567, 5000000, 16000000, 60000000)
  action putRow(dest: int): bool = all {
    own.length() + cases[0].length() + cases[1].length() < 9,
    putAny(dest) }
  action putAny(dest: int): bool = {
    nondet i = 0.to(28).oneOf()
    nondet k = Set(1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8).oneOf()
    nondet w = MAG.oneOf()
    nondet w2 = MAG.union(Set(0, 7000000)).oneOf()
    nondet flip = Set(0, 1).oneOf()
    nondet a = Set(0, 125, 250, 400, 500, 750, 1000).oneOf()
    nondet c = Set(100, 250, 500, 600, 875, 1000).oneOf()
    nondet z = Set(0, 0, 0, 1).oneOf()
    val s = i % beam.spans.length()
    val lo = if (flip == 1 and z == 1 and k >= 5 and k <= 7) 0 else w
    // now and then an extent which is empty or past the end
    val cc = if (z == 1 and c == 100) 0 else c
    val r = rowOf(beam, s, k, lo, if (lo == 0) w else w2, a, cc)
    all { beam' = beam,
          own' = if (dest < 0) own.append(r) else own,
          cases' = if (dest < 0) cases else cases.replaceAt(dest, cases[dest].append(r)),
          settle({ ...call0("add"), row: r, case: dest }) }
  }
  action draw = {
    nondet src = Set("own", "own", "own", "bare", "list", "case", "combo").oneOf()
    nondet back = Set("mpl", "tikz", "both").oneOf()
    nondet opt = 0.to(15).oneOf()
    nondet style = 0.to(5).oneOf()
    nondet sys = (-1).to(5).oneOf()
    nondet dflt = 0.to(5).oneOf()
    nondet f1 = Set(-1000, 350, 1000, 1350).oneOf()
    nondet f2 = Set(-1000, 0, 900, 1500).oneOf()
    pure def scaled(rows: List[Row], f: int): List[Row] =
      if (f == 0) [] else rows.foldl([], (a, r) => a.append(scaleRow(r, f)))
    val rows = if (src == "own") own else if (src == "bare") [] else if (src == "list" or src == "case") cases[0]
               else scaled(cases[0], f1).concat(scaled(cases[1], f2))
    val c = { ...call0("draw"), factor: [f1, f2], source: src, back: back, style: style,
              dims: opt % 2 == 1, labels: (opt / 2) % 2 == 1, values: (opt / 4) % 2 == 1, sups: opt < 12, sys: sys, dflt: dflt }
    all { beam' = beam, own' = own, cases' = cases, call' = c, shown' = rows, pic' = picture(beam, rows) }
  }
  action step = any { putRow(-1), putRow(-1), putRow(0), putRow(1), draw, draw, draw }

  // ---- what any correct picture satisfies -------------------------------------------
  /// the loads drawn are statically the loads applied
  val statics = {
    val r = resultant(beam, shown)
    val d = pic.dist.foldl({ f: 0, m: 0 }, (s, g) => {
      val c = fromMicro(g.x1 - g.x0)
      val f = fmul(fromMicro(g.w0 + g.w1), c) / 2
      { f: s.f + f, m: s.m + fmul(f, fromMicro(g.x0)) + fmul(fmul(fromMicro(g.w0 + 2 * g.w1), c), c) / 6 } })
    val p = pic.pts.foldl(d, (s, g) => { f: s.f + fromMicro(g.p), m: s.m + fmul(fromMicro(g.p), fromMicro(g.x)) })
    val m = pic.cpl.foldl(p, (s, g) => { ...s, m: s.m - fromMicro(g.p) })
    // positions and intensities are held to a micro unit
    and { iabs(m.f - r.f) < fromMicro(2000), iabs(m.m - r.m) < fromMicro(1000000) }
  }
  /// the symbols say exactly how every node is held
  val symbols = range(0, nNodes(beam)).foldl(true, (a, i) => {
    val s = pic.sups.select(g => g.node == i)
    val v = beam.rest[2 * i]
    val t = beam.rest[2 * i + 1]
    a and s.length() <= 1 and (s.length() == 0) == (v == 0 and t == 0) and
    (s.length() == 0 or and {
      Set("pin", "roller", "fixed").contains(s[0].kind) == (v < 0),
      (s[0].kind == "spring") == (v > 0),
      (s[0].spiral or Set("fixed", "guided", "torsion").contains(s[0].kind)) == (t != 0) }) })
  /// lengthways the beam is held once: by walls, else by a single pin
  val lengthways = {
    val pins = pic.sups.select(g => g.kind == "pin").length()
    val up = pic.sups.select(g => g.kind == "pin" or g.kind == "roller").length()
    if (anyFixed(beam)) pins == 0 else pins == (if (up > 0) 1 else 0)
  }
  /// every load once, inside its own span
  val once = pic.dist.length() + pic.pts.length() + pic.cpl.length() <= shown.length() and
    pic.dist.foldl(true, (a, g) => a and g.x0 < g.x1 and g.x1 <= totalL(beam))
}
