/// Influence lines: a load of given big travels along a beam in steps; each
/// request returns one effect at one place for all positions of the load.
module inf_lines {
  import fx.* from "./fx"
  import mechanics.* from "./mechanics"
  import structures.* from "./structures"

  /// eff: "M", "V" at station k/8 of member i; "R", "MR" of the support at node i
  type Ask = { eff: str, i: int, k: int, poi: int, hit: List[int], lo: List[int], hi: List[int] }
  type Train = { on: bool, at: List[int], p: List[int], lo: int, hi: int }
  pure val NS = 8

  var beam: Beam
  var stable: bool
  var made: bool          // explicit creation so far?
  var step_: int          // distance between positions (micro)
  var big: int           // the travelling load (micro)
  var op: str
  var ask: Ask
  var train: Train

  pure val noAsk: Ask = { eff: "", i: 0, k: 0, poi: 0, hit: [], lo: [], hi: [] }
  pure val noTrain: Train = { on: false, at: [], p: [], lo: 0, hi: 0 }

  /// the row of a load p at global position x (none beyond the beam)
  pure def rowAt(b: Beam, p: int, x: int): List[Row] =
    if (x > totalL(b) or x < 0) [] else {
      val i = range(0, b.spans.length()).foldl(0, (a, j) => if (nodeX(b, j) < x) j else a)
      [[i + 1, 2, p, x - nodeX(b, i)]]
    }
  /// effect (pico, just before / just after) of loads; imposed movements are none here
  pure def effect(b: Beam, rows: List[Row], eff: str, i: int, k: int): (int, int) = {
    val s = solveBeam(b, rows)
    if (eff == "R") (toPico(s.react[2 * i]), toPico(s.react[2 * i]))
    else if (eff == "MR") (toPico(s.react[2 * i + 1]), toPico(s.react[2 * i + 1]))
    else {
      val x = b.spans[i].L * k / NS
      val d = diagram(b, rows, s, i, [x]).select(o => o.x == x)
      if (eff == "M") (toPico(d[0].lo.m[0]), toPico(d[d.length() - 1].hi.m[0]))
      else (toPico(d[0].lo.q[0]), toPico(d[d.length() - 1].hi.q[0]))
    }
  }
  /// positions compared: all of a short line, every tenth of the default one
  pure def positions(b: Beam, st: int): List[int] = {
    val n = (totalL(b) + st / 2) / st
    range(0, n + 1).select(k => n < 30 or k % 10 == 0 or k == 1)
  }
  pure def line(b: Beam, st: int, p: int, eff: str, i: int, k: int, poi: int): Ask =
    positions(b, st).foldl({ ...noAsk, eff: eff, i: i, k: k, poi: poi }, (a, j) => {
      val e = effect(b, rowAt(b, p, j * st), eff, i, k)
      { ...a, hit: a.hit.append(j), lo: a.lo.append(e._1), hi: a.hi.append(e._2) } })

  pure val LEN = Set(2000000, 4000000, 6000000, 8000000, 10000000, 14000000)
  pure val UNIT = 1000000
  action init = {
    nondet n = Set(1, 2, 3, 3, 5).oneOf()
    nondet L = 0.to(4).setOfMaps(LEN).oneOf()
    nondet ei = 0.to(4).setOfMaps(RIGID).oneOf()
    nondet et = 0.to(4).setOfMaps(Set(-3, -2, -1, 0, 1, 2, 3, 4)).oneOf()
    nondet sup = 0.to(5).setOfMaps(Set(0, 1, 2, 3, 6, 7, 8, 9, 10)).oneOf()
    nondet pat = 0.to(4).setOfMaps(Set(-4, -3, -2, -1, 0, 1, 2, 3, 4)).oneOf()
    val b = mkBeam(n, L, ei, et.keys().mapBy(k => imax(1, et.get(k))), sup, 4000000000, 30000000000, Map(0 -> 0, 1 -> 0, 2 -> 0, 3 -> 0, 4 -> 0, 5 -> 0))
    val full = { ...b, spans: range(0, n).foldl([], (a, i) => a.append(
      { ...b.spans[i], ei: if (pat.get(i) < 1) b.spans[i].ei else pattern(pat.get(i), L.get(i), ei.get(i)) })) }
    all { beam' = full, stable' = solveBeam(full, []).ok, made' = false, step_' = totalL(full) / 100, big' = UNIT,
          op' = "init", ask' = noAsk, train' = noTrain }
  }
  /// create the lines anew; steps that do not divide the length included
  action create = {
    nondet n = Set(2, 4, 5, 8, 10, 16).oneOf()
    nondet odd = Set(0, 0, 7, 13).oneOf()
    nondet p = Set(1000000, 1000000, 250000000, -40000000).oneOf()
    all { beam' = beam, stable' = stable, made' = true, step_' = totalL(beam) / n * (100 + odd) / 100, big' = p,
          op' = "create", ask' = noAsk, train' = noTrain }
  }
  action request = {
    nondet eff = Set("M", "V").oneOf()
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet k = 0.to(7).oneOf()
    nondet end = Set(0, 1).oneOf()
    // the last station of the beam is asked for as well
    val kk = if (i == beam.spans.length() - 1 and end == 1 and k == 7) 8 else k
    all { beam' = beam, stable' = stable, made' = made, step_' = step_, big' = big, op' = "request",
          ask' = line(beam, step_, big, eff, i, kk, nodeX(beam, i) + beam.spans[i].L * kk / NS), train' = noTrain }
  }
  pure def held_(b: Beam, d: int): List[int] =
    range(0, nNodes(b)).select(i => b.rest[2 * i + d] < 0)
  /// supports whose distance to x is the least
  pure def nearest(b: Beam, d: int, x: int): List[int] = {
    val s = held_(b, d)
    val best = s.foldl(-1, (m, i) => if (m < 0 or iabs(nodeX(b, i) - x) < m) iabs(nodeX(b, i) - x) else m)
    s.select(i => iabs(nodeX(b, i) - x) == best)
  }
  action reaction = {
    nondet d = Set(0, 1).oneOf()
    nondet i = 0.to(beam.spans.length() - 1).oneOf()
    nondet k = 0.to(8).oneOf()
    val x = nodeX(beam, i) + beam.spans[i].L * k / NS
    val s = nearest(beam, d, x)
    all {
      s.length() == 1,
      beam' = beam, stable' = stable, made' = made, step_' = step_, big' = big, op' = "request",
      ask' = line(beam, step_, big, if (d == 0) "R" else "MR", s[0], 0, x), train' = noTrain }
  }
  /// several loads at once, compared with the last line requested
  action superpose = {
    nondet at = 0.to(2).setOfMaps(0.to(9)).oneOf()
    nondet p = 0.to(2).setOfMaps(Set(-30000000, 10000000, 45000000)).oneOf()
    val ks = 0.to(2).fold([], (a, j) => a.append(ask.hit[at.get(j) % ask.hit.length()]))
    val ps = 0.to(2).fold([], (a, j) => a.append(p.get(j)))
    val rows = range(0, 3).foldl([], (a, j) => a.concat(rowAt(beam, ps[j], ks[j] * step_)))
    val e = effect(beam, rows, ask.eff, ask.i, ask.k)
    all { beam' = beam, stable' = stable, made' = made, step_' = step_, big' = big, op' = "superpose", ask' = ask,
          train' = { on: true, at: ks, p: ps, lo: imin(e._1, e._2), hi: imax(e._1, e._2) } }
  }
  action refuse = all { beam' = beam, stable' = stable, made' = made, step_' = step_, big' = big, op' = "refuse", ask' = noAsk, train' = noTrain }
  action step = any {
    all { not(stable), refuse },
    all { stable, create },
    all { stable, request },
    all { stable, request },
    all { stable, reaction },
    all { stable, ask.eff != "", superpose },
  }
  // ---- of the model itself ---------------------------------------------------------
  /// the effect of the group is the sum of the ordinates (within the jump at the place itself)
  val superposes = not(train.on) or {
    val r = range(0, 3).foldl({ lo: 0, hi: 0 }, (a, j) => {
      val m = range(0, ask.hit.length()).select(q => ask.hit[q] == train.at[j])[0]
      val u = ask.lo[m] * train.p[j] / big
      val v = ask.hi[m] * train.p[j] / big
      { lo: a.lo + imin(u, v), hi: a.hi + imax(u, v) } })
    train.lo > r.lo - 10000000000 and train.hi < r.hi + 10000000000
  }
}
