/// Elastic-plastic analysis of a continuous beam: limit analysis as oracle.
///
/// The beam is a line of nodes.  Loads reach the nodes by the lever rule, so
/// moments are linear between nodes and hinges form at nodes.  Whatever the
/// history, moments are in equilibrium with the loads and never beyond their
/// capacity; so by the static theorem the beam stands exactly as long as SOME
/// such moments exist, and it collapses when none do.  Existence is decided
/// here span by span, carrying the interval of possible support moments.
module plastic {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"

  /// x: nodes (micro); sup: which node each support line is; my, mp: capacities
  type Line = { x: List[int], sup: List[int], my: List[int], mp: List[int], free: (bool, bool), fixed: (bool, bool) }
  type Range = { ok: bool, lo: int, hi: int }
  /// lo <= a * left + b * right <= hi
  type Con = { a: int, b: int, lo: int, hi: int }
  type Pos = { x: int, m0: List[int], el: List[int], stands: bool, edge: bool, yields: bool }

  pure val EPS: int = 100000000000
  pure def micro(x: int): int = fromMicro(x)

  // ---- the line of nodes ---------------------------------------------------------
  pure def cells(L: int, h: int): int = imax(1, (2 * L + h) / (2 * h))
  pure def nodesOf(b: Beam, h: int): List[int] =
    range(0, b.spans.length()).foldl([0], (l, i) => {
      val n = cells(b.spans[i].L, h)
      range(1, n + 1).foldl(l, (a, k) => a.append(nodeX(b, i) + b.spans[i].L * k / n))
    })
  pure def supsOf(b: Beam, h: int): List[int] =
    range(0, b.spans.length()).foldl([0], (l, i) => l.append(l[i] + cells(b.spans[i].L, h)))
  /// of each node the capacity of its span; over a support the weaker one's
  pure def capsOf(sup: List[int], mp: List[int], cap: List[int]): List[int] =
    range(0, sup[sup.length() - 1] + 1).foldl([], (l, j) => {
      val i = range(0, mp.length()).foldl(0, (a, k) => if (sup[k] < j) k else a)
      val nxt = if (sup[i + 1] == j and i + 1 < mp.length()) i + 1 else i
      l.append(micro(if (mp[nxt] < mp[i]) cap[nxt] else cap[i]))
    })
  pure def lineOf(b: Beam, h: int, my: List[int], mp: List[int]): Line = {
    val sup = supsOf(b, h)
    val r = b.rest
    val n = r.length()
    { x: nodesOf(b, h), sup: sup, my: capsOf(sup, mp, my), mp: capsOf(sup, mp, mp),
      free: (r[0] == 0, r[n - 2] == 0), fixed: (r[1] != 0, r[n - 1] != 0) }
  }

  // ---- loads on the nodes ----------------------------------------------------------
  /// a load P at x goes to the nodes on either side of it
  pure def lever(g: Line, p: List[int], P: int, x: int): List[int] =
    range(1, g.x.length()).foldl(p, (l, j) => {
      val a = g.x[j - 1]
      val h = g.x[j] - a
      if (x < a or x > g.x[j] or (x == a and j > 1)) l
      else l.replaceAt(j - 1, l[j - 1] + P * (g.x[j] - x) / h).replaceAt(j, l[j] + P * (x - a) / h)
    })
  pure def spread(g: Line, p: List[int], i: int, w: int): List[int] =
    range(g.sup[i] + 1, g.sup[i + 1] + 1).foldl(p, (l, j) => {
      val f = fmul(w, micro(g.x[j] - g.x[j - 1])) / 2
      l.replaceAt(j - 1, l[j - 1] + f).replaceAt(j, l[j] + f)
    })
  pure def nodal(g: Line, b: Beam, lm: List[Row]): List[int] =
    lm.foldl(repeatInt(0, g.x.length()), (p, r) =>
      if (r[1] == 1) spread(g, p, r[0] - 1, micro(r[2])) else lever(g, p, micro(r[2]), nodeX(b, r[0] - 1) + r[3]))

  // ---- statics -----------------------------------------------------------------------
  pure def before(g: Line, p: List[int], s: int, j: int): int =
    range(s, j).foldl(0, (a, k) => a + fmul(p[k], micro(g.x[j] - g.x[k])))
  pure def after(g: Line, p: List[int], j: int, e: int): int =
    range(j + 1, e + 1).foldl(0, (a, k) => a + fmul(p[k], micro(g.x[k] - g.x[j])))
  pure def isTip(g: Line, i: int): int =
    if (i == 0 and g.free._1) -1 else if (i == g.sup.length() - 2 and g.free._2) 1 else 0
  /// moments of span i alone: as a cantilever if its end is free, else simply supported
  pure def aloneAt(g: Line, p: List[int], i: int, j: int): int = {
    val s = g.sup[i]
    val e = g.sup[i + 1]
    if (isTip(g, i) == -1) -before(g, p, s, j)
    else if (isTip(g, i) == 1) -after(g, p, j, e)
    else fmul(range(s + 1, e).foldl(0, (a, k) => a + fmul(p[k], micro(g.x[e] - g.x[k]))),
              fdiv(g.x[j] - g.x[s], g.x[e] - g.x[s])) - before(g, p, s + 1, j)
  }
  /// node moments with nothing over the supports (support moments of tips apart)
  pure def alone(g: Line, p: List[int]): List[int] =
    range(0, g.sup.length() - 1).foldl(repeatInt(0, g.x.length()), (l, i) =>
      range(g.sup[i], g.sup[i + 1] + 1).foldl(l, (a, j) =>
        if (isTip(g, i) != 0 or (j > g.sup[i] and j < g.sup[i + 1])) a.replaceAt(j, aloneAt(g, p, i, j)) else a))

  // ---- can the loads be carried? ------------------------------------------------------
  pure val NONE: Range = { ok: false, lo: 0, hi: 0 }
  pure def meet(r: Range, lo: int, hi: int): Range =
    if (not(r.ok) or imax(r.lo, lo) > imin(r.hi, hi) + EPS) NONE else { ok: true, lo: imax(r.lo, lo), hi: imin(r.hi, hi) }
  /// eliminate the left moment between two constraints
  pure def pair(r: Range, j: Con, k: Con): Range = {
    val c = fmul(k.b, j.a) - fmul(j.b, k.a)
    val rhs = fmul(k.hi, j.a) - fmul(j.lo, k.a)
    if (not(r.ok)) NONE
    else if (iabs(c) < EPS) (if (rhs < -EPS) NONE else r)
    else if (c > 0) meet(r, r.lo, fdiv(rhs, c) + EPS)
    else meet(r, fdiv(rhs, c) - EPS, r.hi)
  }
  pure def cons(g: Line, m: List[int], i: int, left: Range): List[Con] =
    range(g.sup[i] + 1, g.sup[i + 1]).foldl([{ a: ONE, b: 0, lo: left.lo, hi: left.hi }], (l, j) => {
      val t = fdiv(g.x[j] - g.x[g.sup[i]], g.x[g.sup[i + 1]] - g.x[g.sup[i]])
      l.append({ a: ONE - t, b: t, lo: -g.mp[j] - m[j], hi: g.mp[j] - m[j] })
    })
  pure def across(g: Line, m: List[int], i: int, left: Range): Range = {
    val c = cons(g, m, i, left)
    val cap = g.mp[g.sup[i + 1]]
    c.foldl({ ok: left.ok, lo: -cap, hi: cap }, (r, j) => c.foldl(r, (q, k) => pair(q, j, k)))
  }
  pure def within(g: Line, m: List[int], i: int): bool =
    range(g.sup[i], g.sup[i + 1] + 1).foldl(true, (a, j) => a and iabs(m[j]) <= g.mp[j])
  pure def exactly(v: int): Range = { ok: true, lo: v, hi: v }
  pure def anything(cap: int): Range = { ok: true, lo: -cap, hi: cap }
  /// m: moments of the spans alone, under the load in question
  pure def carries(g: Line, m: List[int]): bool = {
    val n = g.sup.length() - 1
    val z = g.sup[n]
    val from = if (g.fixed._1) anything(g.mp[0]) else exactly(0)
    range(0, n).foldl(from, (r, i) =>
      if (not(r.ok)) NONE
      else if (isTip(g, i) == -1) (if (within(g, m, i)) exactly(m[g.sup[1]]) else NONE)
      else if (isTip(g, i) == 1) (if (within(g, m, i)) meet(r, m[g.sup[i]], m[g.sup[i]]) else NONE)
      else {
        val q = across(g, m, i, r)
        if (i == n - 1 and not(g.fixed._2)) meet(q, 0, 0) else q
      }).ok and z > 0
  }
  pure val TOP: int = 64
  /// the largest factor the beam stands, or TOP if that is not enough to tell
  pure def limit(g: Line, m: List[int]): int =
    if (carries(g, vscale(TOP * ONE, m))) TOP * ONE
    else range(0, 48).foldl((0, TOP * ONE), (w, k) => {
      val c = (w._1 + w._2) / 2
      if (carries(g, vscale(c, m))) (c, w._2) else (w._1, c)
    })._1

  // ---- elastic behaviour ---------------------------------------------------------------
  pure def unitRow(g: Line, b: Beam, k: int): List[Row] = {
    val i = range(0, b.spans.length()).foldl(0, (a, s) => if (g.sup[s] < k) s else a)
    [[i + 1, 2, 1000000, g.x[k] - nodeX(b, i)]]
  }
  pure def nodeObs(g: Line, b: Beam, lm: List[Row], s: Sol): List[(int, int, int)] =
    range(0, b.spans.length()).foldl([], (l, i) => {
      val xs = range(g.sup[i], g.sup[i + 1] + 1).foldl([], (a, j) => a.append(g.x[j] - nodeX(b, i)))
      val d = diagram(b, lm, s, i, xs)
      range(if (i == 0) 0 else 1, d.length()).foldl(l, (a, j) =>
        a.append((if (j == 0) d[j].hi.m[0] else d[j].lo.m[0], d[j].hi.v[0], d[j].hi.t[0])))
    })
  /// moments, deflections, rotations at the nodes due to a unit load on each node
  pure def unitCases(g: Line, b: Beam): List[List[(int, int, int)]] =
    range(0, g.x.length()).foldl([], (l, k) => {
      val rows = unitRow(g, b, k)
      val s = solveBeam(b, rows)
      l.append(if (s.ok) nodeObs(g, b, rows, s) else [])
    })
  /// the same for loads on all nodes at once
  pure def elasticObs(g: Line, b: Beam, p: List[int]): List[(int, int, int)] = {
    val rows = range(0, p.length()).foldl([], (l, k) =>
      l.concat(unitRow(g, b, k).foldl([], (q, r) => q.append([r[0], 2, p[k] / MICRO, r[3]]))))
    val s = solveBeam(b, rows)
    if (s.ok) nodeObs(g, b, rows, s) else []
  }
  pure def momentsOf(u: List[List[(int, int, int)]], p: List[int]): List[int] =
    range(0, p.length()).foldl([], (l, j) =>
      l.append(range(0, p.length()).foldl(0, (a, k) => if (p[k] == 0) a else a + fmul(p[k], u[k][j]._1))))
  /// load factor of first yield (TOP if nothing yields before)
  pure def firstYield(g: Line, el: List[int]): int =
    range(0, el.length()).foldl(TOP * ONE, (a, j) =>
      if (fmul(a, iabs(el[j])) <= g.my[j]) a else fdiv(g.my[j], iabs(el[j])))

  // ---- a vehicle --------------------------------------------------------------------------
  pure def onto(g: Line, w: List[int], back: List[int], x: int): List[int] =
    range(0, w.length()).foldl(repeatInt(0, g.x.length()), (p, k) => {
      val at = x - back[k]
      if (at < 0 or at > g.x[g.x.length() - 1]) p else lever(g, p, micro(w[k]), at)
    })
  pure def placed(g: Line, u: List[List[(int, int, int)]], w: List[int], back: List[int], x: int): Pos = {
    val p = onto(g, w, back, x)
    val m = alone(g, p)
    val el = momentsOf(u, p)
    val near = 20000
    { x: x, m0: lmap(m, v => toPico(v)), el: lmap(el, v => toPico(v)), stands: carries(g, m),
      edge: carries(g, vscale(ONE - ONE / near, m)) != carries(g, vscale(ONE + ONE / near, m)),
      yields: range(0, el.length()).foldl(false, (a, j) => a or fmul(iabs(el[j]), ONE + ONE / near) > g.my[j]) }
  }
  pure def travel(g: Line, u: List[List[(int, int, int)]], w: List[int], back: List[int], d: int): List[Pos] = {
    val far = 2 * (g.x[g.x.length() - 1] + back[back.length() - 1]) + d
    range(0, (far - 1) / (2 * d) + 1).foldl([], (l, k) => l.append(placed(g, u, w, back, k * d)))
  }

  // ---- behaviours ----------------------------------------------------------------------------
  var beam: Beam
  var mesh: int
  var line: Line
  var unit: List[List[(int, int, int)]]
  var cap: { mp: List[int], my: List[int], hard: int }
  var lm: List[Row]
  var call: { name: str, lamMax: int, kind: int, w: List[int], back: List[int], d: int, sub: int }
  var stat: { m0: List[int], el: List[int], v: List[int], t: List[int], lamY: int, lamC: int }
  var trip: List[Pos]

  pure val noStat = { m0: [], el: [], v: [], t: [], lamY: 0, lamC: 0 }
  pure def called(n: str, k: int): { name: str, lamMax: int, kind: int, w: List[int], back: List[int], d: int, sub: int } =
    { name: n, lamMax: 0, kind: k, w: [], back: [], d: 0, sub: 0 }
  /// pinned, clamped or free ends; a free end needs a support and more beyond it
  pure def ends(n: int, l: int, r: int): (int, int) =
    if (n == 1) (if (l == 2 and r != 2) (0, 1) else if (r == 2 and l != 2) (1, 0) else (if (l == 1) -1 else 2, if (r == 1) -1 else 2))
    else (if (l == 2) 0 else if (l == 1) -1 else 2, if (r == 2 and (n > 2 or l != 2)) 0 else if (r == 1) -1 else 2)
  pure def supKind(k: int): int = if (k == 0) 0 else if (k == 2) 1 else 6

  action build(moving: bool): bool = {
    nondet few = Set(1, 2, 2, 3, 3).oneOf()
    nondet many = Set(0, 0, 0, 0, 4, 5).oneOf()
    nondet L = 0.to(4).setOfMaps(Set(4200000, 6300000, 8400000)).oneOf()
    nondet ei = 0.to(4).setOfMaps(Set(12000000000, 30000000000, 21000000000)).oneOf()
    nondet alike = 0.to(2).oneOf()
    nondet h = Set(1000000, 1500000, 2000000).oneOf()
    nondet mp = 0.to(4).setOfMaps(Set(100000000, 150000000, 210000000)).oneOf()
    nondet ratio = 0.to(4).setOfMaps(Set(80, 90, 100)).oneOf()
    nondet l = Set(0, 0, 1, 2).oneOf()
    nondet r = Set(0, 0, 1, 2).oneOf()
    nondet hard = Set(0, 0, 0, 0, 0, 50000).oneOf()
    val n = if (moving or many == 0) few else many
    val e = ends(n, l, r)
    // equal spans now and then: symmetric beams yield in several places at once
    pure def same(k: int): int = if (alike == 0) L.get(0) else if (alike == 1 and k == 2) L.get(0) else L.get(k)
    val b = mkBeam(n, L.keys().mapBy(k => same(k)), if (alike == 0) ei.keys().mapBy(k => ei.get(0)) else ei, 0.to(4).mapBy(k => 1),
      0.to(5).mapBy(k => if (k == 0) supKind(e._1) else if (k == n) supKind(e._2) else 1), 0, 0, 0.to(5).mapBy(k => 0))
    val p = range(0, n).foldl([], (a, i) => a.append(if (alike == 0) mp.get(0) else mp.get(i)))
    val y = range(0, n).foldl([], (a, i) => a.append(p[i] * ratio.get(if (alike == 0) 0 else i) / 100))
    val g = lineOf(b, h, y, p)
    all { beam' = b, mesh' = h, line' = g, unit' = if (moving) unitCases(g, b) else [], cap' = { mp: p, my: y, hard: hard }, lm' = [],
          call' = called("init", 0), stat' = noStat, trip' = [] }
  }
  action init = build(true)
  action initStatic = build(false)
  action keep = all { beam' = beam, mesh' = mesh, line' = line, unit' = unit, cap' = cap }
  action quiet = all { stat' = noStat, trip' = [] }
  action load = {
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet k = Set(1, 2, 2).oneOf()
    nondet w = Set(20000000, 35000000, 60000000, -15000000).oneOf()
    nondet a = 0.to(42).oneOf()
    nondet everywhere = 0.to(3).oneOf()
    val spans = if (everywhere == 0) range(0, beam.spans.length()) else if (everywhere == 1 and beam.spans.length() == 3) [0, 2] else [i]
    // symmetric about the middle of the beam: the third span mirrors the first
    val rows = spans.foldl([], (s, j) => s.append(if (k == 1) [j + 1, 1, w]
      else [j + 1, 2, 4 * w, beam.spans[j].L * (if (j == 2) 42 - a else a) / 42]))
    all { lm' = lm.concat(rows), call' = called("load", 0), keep, quiet }
  }
  action clear = all { lm.length() > 0, lm' = [], call' = called("clear", 0), keep, quiet }
  action analyse = {
    nondet k = Set(0, 0, 0, 1, 2).oneOf()
    val p = nodal(line, beam, lm)
    val m = alone(line, p)
    val ob = elasticObs(line, beam, p)
    val el = ob.foldl([], (l, o) => l.append(o._1))
    val y = firstYield(line, el)
    val c = limit(line, m)
    // all the way, or stop in the elastic range, or between yield and collapse
    val top = if (k == 0 or y == TOP * ONE) 20 * ONE else if (k == 1) y * 9 / 10 else (y + c) / 2
    all { lm.length() > 0,
          stat' = { m0: lmap(m, v => toPico(v)), el: lmap(el, v => toPico(v)), v: ob.foldl([], (l, o) => l.append(toPico(o._2))),
                    t: ob.foldl([], (l, o) => l.append(toPico(o._3))), lamY: toPico(y), lamC: toPico(c) },
          call' = called("analyse", k).with("lamMax", toPico(top)), trip' = [], lm' = lm, keep }
  }
  action drive = {
    nondet w = 0.to(2).setOfMaps(Set(30000000, 60000000, 90000000, 130000000)).oneOf()
    nondet s = 0.to(1).setOfMaps(Set(1310000, 2100000, 2870000)).oneOf()
    nondet n = 1.to(3).oneOf()
    nondet d = Set(700000, 1050000, 1500000).oneOf()
    nondet sub = Set(1, 3, 5).oneOf()
    val ws = range(0, n).foldl([], (l, i) => l.append(w.get(i)))
    val back = range(0, n).foldl([], (l, i) => l.append(if (i == 0) 0 else if (i == 1) s.get(0) else s.get(0) + s.get(1)))
    all { trip' = if (unit.length() == 0) [] else travel(line, unit, ws, back, d), stat' = noStat, lm' = lm,
          call' = { name: "drive", lamMax: 0, kind: n, w: ws, back: back, d: d, sub: sub }, keep }
  }
  /// something the analysis does not cover
  action refuse = {
    nondet k = 0.to(11).oneOf()
    all { call' = called("refuse", k), lm' = lm, keep, quiet }
  }
  /// mostly loads that grow / mostly loads that move
  action stepStatic = if (lm.length() == 0) any { load, load, load, refuse }
    else if (call.name == "load") any { load, analyse, analyse, analyse } else any { load, load, clear, analyse, drive, refuse }
  action stepMoving = if (call.name == "drive") any { drive, drive, drive, load } else drive
  action step = if (lm.length() == 0) any { load, load, drive, refuse }
    else if (call.name == "load") any { load, analyse, analyse, drive } else any { load, clear, analyse, drive, refuse }

  // ---- what makes limit analysis trustworthy ---------------------------------------------------
  /// nothing can collapse while it could still be elastic (safe theorem)
  val safe = call.name == "analyse" implies stat.lamY <= stat.lamC + stat.lamC / 1000000 + 1000
  /// no more is carried than any one span's mechanism allows (unsafe theorem)
  val unsafe = call.name == "analyse" implies range(0, line.sup.length() - 1).foldl(true, (a, i) => {
    val s = line.sup[i]
    val e = line.sup[i + 1]
    a and (isTip(line, i) != 0 or range(s + 1, e).foldl(true, (q, j) => {
      val t = fdiv(line.x[j] - line.x[s], line.x[e] - line.x[s])
      val most = line.mp[j] + fmul(ONE - t, if (i == 0 and not(line.fixed._1)) 0 else line.mp[s])
        + fmul(t, if (i == line.sup.length() - 2 and not(line.fixed._2)) 0 else line.mp[e])
      q and (stat.lamC * iabs(stat.m0[j]) / 1000000000000 <= toPico(most) + 1000000)
    }))
  })
  /// elastic moments are in equilibrium with the load
  pure def between(g: Line, m: List[int], m0: List[int]): bool =
    range(0, g.sup.length() - 1).foldl(true, (a, i) => a and (isTip(g, i) != 0 or range(g.sup[i] + 1, g.sup[i + 1]).foldl(true, (q, j) => {
      val s = g.sup[i]
      val e = g.sup[i + 1]
      val chord = m[s] + (m[e] - m[s]) * (g.x[j] - g.x[s]) / (g.x[e] - g.x[s])
      q and iabs(m[j] - m0[j] - chord) < 100000000
    })))
  val balanced = (call.name == "analyse" implies between(line, stat.el, stat.m0))
    and trip.foldl(true, (a, p) => a and between(line, p.el, p.m0))
  /// a position at which nothing yields is carried
  val elasticStands = trip.foldl(true, (a, p) => a and (p.yields or p.stands or p.edge))
}
